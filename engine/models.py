"""Models of library calls: which are transparent, which build messages, which touch storage."""
import re
from terms import *
from absint import cmp_, not_, strip_generics, Unsupported

TABLE, METHODS, FORCE = {}, {}, {}


def event_type(t):
    return t in ("cosmwasm_std::Event", "std::vec::Vec<cosmwasm_std::Attribute>", "cosmwasm_std::Attribute") or \
        t.startswith("std::vec::Vec<cosmwasm_std::Attribute") or t.startswith("std::vec::Vec<cosmwasm_std::Event")


def model(*keys, force=False):
    def d(f):
        for k in keys:
            if "::" in k:
                TABLE[k] = f
            else:
                METHODS[k] = f
            if force:
                FORCE[k] = True
        return f
    return d


def V(e, st, a):
    return e.deref(st, a)


def D(e, st, a):
    return e.deep(st, a)


def is_option(j, v, t=None):
    n = j.get("rname") or j["name"]
    return "option::Option" in n.split(" as ")[0]


def bare(t):
    return re.sub(r"<.*", "", re.sub(r"'\w+|'\{erased\}", "", t)).split("::")[-1].strip()


def from_impl(e, j):
    """the workspace implementation of From behind a call of into"""
    if e.froms is None:
        e.froms = {}
        for f in e.p.fns.values():
            m = re.search(r"<impl std::convert::From<(.*)> for (.*)>::from$", f.full) or re.search(r"<(?P<u>.*) as std::convert::From<(?P<t>.*)>>::from$", f.full)
            if m:
                t, u = (m.group("t"), m.group("u")) if "u" in m.groupdict() else (m.group(1), m.group(2))
                e.froms.setdefault((bare(t), bare(u)), []).append((f, "::" in t))
    m = re.match(r"\[(.*), ([^,]*)\]$", j.get("args") or "")
    if not m:
        return None
    fs = e.froms.get((bare(m.group(1)), bare(m.group(2))), ())
    return fs[0][0] if len(fs) == 1 else None


# ------------------------------------------------------------------ transparent calls
@model("Clone::clone", "ToString::to_string", "Into::into", "From::from", "AsRef::as_ref", "Borrow::borrow",
       "ToOwned::to_owned", "Deref::deref", "String::as_str", "String::as_bytes", "str::as_bytes", "Addr::as_str",
       "Addr::as_bytes", "Addr::into_string", "Addr::unchecked", "Uint128::u128", "Uint128::new", "Option::as_ref",
       "Option::cloned", "Option::copied", "Option::as_deref", "Result::as_ref", "Box::new", "String::into_bytes",
       "str::to_owned", "slice::to_vec", "Vec::into_boxed_slice", "Vec::as_slice", "DepsMut::as_ref", "DepsMut::branch", "hint::must_use",
       "must_use", "Uint64::u64", "Uint64::new", "Timestamp::nanos", "Timestamp::from_nanos", "Decimal::new",
       "QuerierWrapper::new", "str::to_string", "Decimal::atomics", "TryInto::try_into", "TryFrom::try_from",
       "identity", "convert::identity", "Empty::default", "str::as_ref", "Addr::as_ref", "as_addr", "Option::as_slice",
       "Vec::into_iter_", "Cow::into_owned", "Coin::clone", "AsDisplay::as_display")
def ident(e, st, j, args, t):
    key = e.key_of(j)
    v = args[0]
    if key in ("TryInto::try_into", "TryFrom::try_from"):
        return [(st, ok(D(e, st, v)))]
    if key in ("Into::into", "From::from"):
        rid = tuple(j.get("rid") or j["id"])
        if rid in e.p.fns:
            return None
        f = from_impl(e, j) if key == "Into::into" else None
        if f is not None and not (e.event_ok and event_type(f.ret()[0])):
            return e.run_body(st, f, f.body, [v])
    v = V(e, st, v)
    if key == "ToString::to_string" and "Decimal" in str(j.get("args")):
        e.printed.add(D(e, st, v))  # parses back to the same value
    return [(st, v)]


@model("DerefMut::deref_mut", "AsMut::as_mut", "Option::as_mut", "BorrowMut::borrow_mut", "Option::as_deref_mut",
       "slice::iter_mut", "Vec::as_mut_slice")
def identmut(e, st, j, args, t):
    key = e.key_of(j)
    if key in ("Option::as_mut", "Option::as_deref_mut"):
        r = args[0]
        v = V(e, st, r)
        out = []
        for s, y in e.split_variant(st, v, "Some", ("None", "Some")):
            if y and r.k == "ref":
                out.append((s, some(mk("ref", r.a[0], r.a[1], r.a[2] + (("v", "Some"), ("f", "0")), True))))
            else:
                out.append((s, NONE if not y else some(fld(as_(v, "Some"), "0"))))
        return out
    return [(st, args[0])]


# ------------------------------------------------------------------ comparison
@model("PartialEq::eq", "PartialEq::ne", force=True)
def eq(e, st, j, args, t):
    c = cmp_("==", D(e, st, args[0]), D(e, st, args[1]))
    c = eqnorm(e, c)
    if j["name"].endswith("::ne"):
        c = not_(c)
    return [(st, c)]


def eqnorm(e, c):
    """x == Unit variant becomes a variant test"""
    if c.k == "cmp" and c.a[0] == "==":
        a, b = c.a[1], c.a[2]
        if b.k == "adt" and a.k != "adt":
            a, b = b, a
        if a.k == "adt" and b.k != "adt" and not a.a[2]:
            vs = e.variants_of(a.a[0])
            if vs and len(vs) > 1:
                return mk("isvar", b, a.a[1], vs)
    return c


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge", force=True)
def ords(e, st, j, args, t):
    m = (j["name"].split("::")[-1])
    op = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[m]
    a, b = D(e, st, args[0]), D(e, st, args[1])
    if any(x.k == "adt" and x.a[1] in ("Some", "None") for x in (a, b)):
        # None < Some(_); Some(x) and Some(y) compare as x and y
        out = []
        for s, ya in e.split_variant(st, a, "Some", ("None", "Some")):
            for s2, yb in e.split_variant(s, b, "Some", ("None", "Some")):
                if ya and yb:
                    out.append((s2, cmp_(op, fld(as_(a, "Some"), "0"), fld(as_(b, "Some"), "0"))))
                else:
                    x, y = int(ya), int(yb)
                    r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
                    out.append((s2, TRUE if r else FALSE))
        return out
    return [(st, cmp_(op, a, b))]


@model("Ord::cmp", "PartialOrd::partial_cmp", force=True)
def ocmp(e, st, j, args, t):
    a, b = D(e, st, args[0]), D(e, st, args[1])
    out = []
    wrap = (lambda x: some(x)) if "partial_cmp" in j["name"] else (lambda x: x)
    for s, lt in e.branch(st, cmp_("<", a, b)):
        if lt:
            out.append((s, wrap(mk("adt", "std::cmp::Ordering", "Less", ()))))
            continue
        for s2, q in e.branch(s, cmp_("==", a, b)):
            out.append((s2, wrap(mk("adt", "std::cmp::Ordering", "Equal" if q else "Greater", ()))))
    return out


@model("Ord::min", "Ord::max", "cmp::min", "cmp::max", "Uint128::min", "Uint128::max")
def minmax(e, st, j, args, t):
    a, b = D(e, st, args[0]), D(e, st, args[1])
    if a.id > b.id:
        a, b = b, a
    return [(st, mk("call", "min" if j["name"].endswith("min") else "max", (a, b)))]


@model("Uint128::is_zero", "Decimal::is_zero", "Uint64::is_zero")
def iszero(e, st, j, args, t):
    return [(st, cmp_("==", D(e, st, args[0]), I(0)))]


@model("Uint128::zero", "Decimal::zero", "Uint64::zero", "Uint128::default", "Decimal::default")
def zero(e, st, j, args, t):
    return [(st, I(0))]


@model("Uint128::one")
def one(e, st, j, args, t):
    return [(st, I(1))]


# ------------------------------------------------------------------ arithmetic
def arith(op):
    def f(e, st, j, args, t):
        return [(st, binop(op, D(e, st, args[0]), D(e, st, args[1])))]
    return f


for tr, op in (("Add::add", "add"), ("Sub::sub", "sub"), ("Mul::mul", "mul"), ("Div::div", "div"), ("Rem::rem", "rem")):
    TABLE[tr] = arith(op)


def nb_wrap(op):
    base = arith(op)

    def f(e, st, j, args, t):
        n = j.get("rname") or ""
        if "NativeBalance" in n:
            a, b = D(e, st, args[0]), D(e, st, args[1])
            if op == "sub":
                return fallible(e, st, mk("nb", "sub", a, b), ("nbsub", a, b))
            return [(st, mk("nb", op, a, b))]
        if op == "sub":
            a, b = D(e, st, args[0]), D(e, st, args[1])
            r = binop(op, a, b)
            if r.k == "int" or r.k == "nb":
                return [(st, r)]
            return [(s, r) for s in e.unless(st, cmp_("<", a, b), "subtraction", t)]
        return base(e, st, j, args, t)
    return f


def fallible(e, st, v, tag):
    """an operation that may fail: both outcomes, the same decision for the same operands"""
    out = []
    for s, y in e.branch(st, mk("succeeds", *tag)):
        out.append((s, ok(v) if y else err(mk("failed", *tag))))
    return out


TABLE["Add::add"] = nb_wrap("add")
TABLE["Sub::sub"] = nb_wrap("sub")


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def opassign(e, st, j, args, t):
    op = {"add_assign": "add", "sub_assign": "sub", "mul_assign": "mul"}[j["name"].split("::")[-1]]
    r = args[0]
    a, b = D(e, st, r), D(e, st, args[1])
    v = mk("nb", op, a, b) if "NativeBalance" in (j.get("rname") or "") else binop(op, a, b)
    if r.k == "ref":
        e.write_loc(st, (r.a[0], r.a[1]), r.a[2], v)
    return [(st, UNIT)]


def chk(op):
    def f(e, st, j, args, t):
        a, b = D(e, st, args[0]), D(e, st, args[1])
        v = binop(op, a, b)
        if v.k == "int":
            return [(st, ok(v))]
        return fallible(e, st, v, (op, a, b))
    return f


for ty in ("Uint128", "Decimal", "Uint64"):
    for m in ("add", "sub", "mul", "div"):
        TABLE["%s::checked_%s" % (ty, m)] = chk(m)


@model("Uint128::mul_floor")
def mulfloor(e, st, j, args, t):
    return [(st, binop("mul", D(e, st, args[0]), D(e, st, args[1])))]


@model("Uint128::mul_ceil")
def mulceil(e, st, j, args, t):
    return [(st, mk("call", "mul_ceil", (D(e, st, args[0]), D(e, st, args[1]))))]


@model("num::checked_add", "num::checked_sub", "num::checked_mul", "num::checked_div")
def numchk(e, st, j, args, t):
    op = j["name"].split("_")[-1]
    a, b = D(e, st, args[0]), D(e, st, args[1])
    out = []
    for s, y in e.branch(st, mk("succeeds", op, a, b)):
        out.append((s, some(binop(op, a, b)) if y else NONE))
    return out


@model("num::wrapping_add")
def wadd(e, st, j, args, t):
    return [(st, binop("add", D(e, st, args[0]), D(e, st, args[1])))]


@model("num::overflowing_add")
def oadd(e, st, j, args, t):
    a, b = D(e, st, args[0]), D(e, st, args[1])
    return [(st, tup(binop("add", a, b), mk("call", "overflows", (mk("str", "add"), a, b))))]


@model("Timestamp::plus_seconds")
def plus_s(e, st, j, args, t):
    return [(st, binop("add", D(e, st, args[0]), mk("call", "secs", (D(e, st, args[1]),))))]


@model("Timestamp::minus_seconds")
def minus_s(e, st, j, args, t):
    return [(st, binop("sub", D(e, st, args[0]), mk("call", "secs", (D(e, st, args[1]),))))]


def secs_of(t):
    """whole seconds of a time: whole seconds added to it stay whole"""
    if t.k == "bin" and t.a[0] in ("add", "sub"):
        op, a, b = t.a
        if b.k == "call" and b.a[0] == "secs":
            return binop(op, secs_of(a), b.a[1][0])
        if op == "add" and a.k == "call" and a.a[0] == "secs":
            return binop(op, secs_of(b), a.a[1][0])
    return mk("call", "to_secs", (t,))


@model("Timestamp::seconds")
def seconds(e, st, j, args, t):
    return [(st, secs_of(D(e, st, args[0])))]


@model("Timestamp::from_seconds")
def from_seconds(e, st, j, args, t):
    return [(st, mk("call", "secs", (D(e, st, args[0]),)))]


# ------------------------------------------------------------------ Option / Result
@model("Try::branch")
def trybranch(e, st, j, args, t):
    v = V(e, st, args[0])
    n = j.get("rname") or j["name"]
    out = []
    if "option::Option" in n.split(" as ")[0]:
        for s, y in e.split_variant(st, v, "Some", ("None", "Some")):
            out.append((s, adt("ControlFlow", "Continue", **{"0": fld(as_(v, "Some"), "0")}) if y
                        else adt("ControlFlow", "Break", **{"0": NONE})))
        return out
    for s, y in e.split_variant(st, v, "Ok", ("Ok", "Err")):
        out.append((s, adt("ControlFlow", "Continue", **{"0": fld(as_(v, "Ok"), "0")}) if y
                    else adt("ControlFlow", "Break", **{"0": err(fld(as_(v, "Err"), "0"))})))
    return out


@model("FromResidual::from_residual")
def fromres(e, st, j, args, t):
    v = V(e, st, args[0])
    if v.k == "adt" and v.a[1] == "None":
        return [(st, NONE)]
    return [(st, err(fld(as_(v, "Err"), "0")))]


def opt_split(e, st, v):
    return e.split_variant(st, v, "Some", ("None", "Some"))


def res_split(e, st, v):
    return e.split_variant(st, v, "Ok", ("Ok", "Err"))


def payload(v, n):
    return fld(as_(v, n), "0")


def optres(j):
    r = j.get("_or")
    if r is None:
        n = strip_generics(j["name"])
        r = j["_or"] = "o" if "::Option::" in "::" + n + "::" else "r"
    return r


def split2(e, st, j, v):
    """(state, has value, payload)"""
    out = []
    if optres(j) == "o":
        for s, y in opt_split(e, st, v):
            out.append((s, y, payload(v, "Some") if y else None))
    else:
        for s, y in res_split(e, st, v):
            out.append((s, y, payload(v, "Ok") if y else payload(v, "Err")))
    return out


def wrap(j, y, p):
    if optres(j) == "o":
        return some(p) if y else NONE
    return ok(p) if y else err(p)


@model("Option::map", "Result::map")
def omap(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    if is_option(j, v) and v.k == "fld" and e.is_variant(st, v, "Some", ("None", "Some")) is None:
        # a conversion that keeps the value keeps the option
        s0 = st.copy()
        p = payload(v, "Some")
        rs = e.apply(s0, args[1], [p])
        if len(rs) == 1 and rs[0][0].eff == st.eff and not e.factdelta(st, rs[0][0]) and D(e, rs[0][0], rs[0][1]) is D(e, st, p):
            return [(st, v)]
    for s, y, p in split2(e, st, j, v):
        if y:
            for s2, r in e.apply(s, args[1], [p]):
                out.append((s2, wrap(j, True, r)))
        else:
            out.append((s, wrap(j, False, p)))
    return out


@model("Result::map_err")
def maperr(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y in res_split(e, st, v):
        if y:
            out.append((s, ok(payload(v, "Ok"))))
        else:
            for s2, r in e.apply(s, args[1], [payload(v, "Err")]):
                out.append((s2, err(r)))
    return out


@model("Option::and_then", "Result::and_then")
def andthen(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y, p in split2(e, st, j, v):
        if y:
            out += e.apply(s, args[1], [p])
        else:
            out.append((s, wrap(j, False, p)))
    return out


@model("Option::or_else", "Result::or_else")
def orelse(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y, p in split2(e, st, j, v):
        if y:
            out.append((s, wrap(j, True, p)))
        else:
            out += e.apply(s, args[1], [] if optres(j) == "o" else [p])
    return out


@model("Option::or")
def oor(e, st, j, args, t):
    v = V(e, st, args[0])
    return [(s, some(payload(v, "Some")) if y else V(e, s, args[1])) for s, y in opt_split(e, st, v)]


@model("Option::filter")
def ofilter(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y in opt_split(e, st, v):
        if not y:
            out.append((s, NONE))
            continue
        p = payload(v, "Some")
        for s2, b in e.apply(s, args[1], [p]):
            for s3, y2 in e.branch(s2, V(e, s2, b)):
                out.append((s3, some(p) if y2 else NONE))
    return out


@model("Option::map_or", "Result::map_or")
def mapor(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y, p in split2(e, st, j, v):
        if y:
            out += e.apply(s, args[2], [p])
        else:
            out.append((s, args[1]))
    return out


@model("Option::map_or_else", "Result::map_or_else")
def maporelse(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y, p in split2(e, st, j, v):
        if y:
            out += e.apply(s, args[2], [p])
        else:
            out += e.apply(s, args[1], [] if optres(j) == "o" else [p])
    return out


@model("Option::is_some_and", "Result::is_ok_and", "Option::is_none_or")
def issomeand(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y, p in split2(e, st, j, v):
        if y:
            out += e.apply(s, args[1], [p])
        else:
            out.append((s, TRUE if "none_or" in j["name"] else FALSE))
    return out


@model("Option::unwrap_or", "Result::unwrap_or")
def unwrapor(e, st, j, args, t):
    v = V(e, st, args[0])
    return [(s, p if y else args[1]) for s, y, p in split2(e, st, j, v)]


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def unwraporelse(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y, p in split2(e, st, j, v):
        if y:
            out.append((s, p))
        else:
            out += e.apply(s, args[1], [] if optres(j) == "o" else [p])
    return out


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrapdef(e, st, j, args, t):
    v = V(e, st, args[0])
    return [(s, p if y else default_of(t["dt"][1])) for s, y, p in split2(e, st, j, v)]


def default_of(head):
    h = str(head)
    if h.startswith("cosmwasm_std::Uint") or h.startswith("cosmwasm_std::math::uint") or h in ("u8", "u16", "u32", "u64", "u128", "usize", "cosmwasm_std::Decimal", "i32", "i64"):
        return I(0)
    if h == "std::string::String":
        return S("")
    if h == "bool":
        return FALSE
    if h == "std::vec::Vec":
        return lst()
    if h == "std::option::Option":
        return NONE
    if h == "cosmwasm_std::Response":
        return RESP0
    return mk("call", "default", (S(h),))


@model("FromStr::from_str", "Decimal::from_str", "str::parse")
def fromstr(e, st, j, args, t):
    v = D(e, st, args[0])
    return [(st, ok(v))] if v in e.printed else None


@model("String::new")
def strnew(e, st, j, args, t):
    return [(st, S(""))]


@model("Default::default")
def dflt(e, st, j, args, t):
    rid = tuple(j.get("rid") or j["id"])
    if rid in e.p.fns:
        return None
    return [(st, default_of(t["dt"][1]))]


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def unwrap(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y, p in split2(e, st, j, v):
        if y:
            out.append((s, p))
        else:
            e.trap(s, j["name"].split("::")[-1], t)
    return out


@model("Result::unwrap_err", "Result::expect_err")
def unwraperr(e, st, j, args, t):
    v = V(e, st, args[0])
    return [(s, payload(v, "Err")) for s, y in res_split(e, st, v) if not y]


@model("Option::is_some")
def issome(e, st, j, args, t):
    return variant_bool(D(e, st, args[0]), "Some", ("None", "Some"))(st)


@model("Option::is_none")
def isnone(e, st, j, args, t):
    return [(s, not_(b)) for s, b in variant_bool(D(e, st, args[0]), "Some", ("None", "Some"))(st)]


@model("Result::is_ok")
def isok(e, st, j, args, t):
    return variant_bool(D(e, st, args[0]), "Ok", ("Ok", "Err"))(st)


@model("Result::is_err")
def iserr(e, st, j, args, t):
    return [(s, not_(b)) for s, b in variant_bool(D(e, st, args[0]), "Ok", ("Ok", "Err"))(st)]


def variant_bool(v, n, vs):
    def f(st):
        if v.k == "adt":
            return [(st, TRUE if v.a[1] == n else FALSE)]
        return [(st, mk("isvar", v, n, vs))]
    return f


@model("Option::ok_or")
def okor(e, st, j, args, t):
    v = V(e, st, args[0])
    return [(s, ok(payload(v, "Some")) if y else err(args[1])) for s, y in opt_split(e, st, v)]


@model("Option::ok_or_else")
def okorelse(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    for s, y in opt_split(e, st, v):
        if y:
            out.append((s, ok(payload(v, "Some"))))
        else:
            out += [(s2, err(r)) for s2, r in e.apply(s, args[1], [])]
    return out


@model("Result::ok")
def rok(e, st, j, args, t):
    v = V(e, st, args[0])
    return [(s, some(payload(v, "Ok")) if y else NONE) for s, y in res_split(e, st, v)]


@model("Result::err")
def rerr(e, st, j, args, t):
    v = V(e, st, args[0])
    return [(s, NONE if y else some(payload(v, "Err"))) for s, y in res_split(e, st, v)]


@model("Option::transpose", "Result::transpose")
def transpose(e, st, j, args, t):
    v = V(e, st, args[0])
    out = []
    if optres(j) == "o":
        for s, y in opt_split(e, st, v):
            if not y:
                out.append((s, ok(NONE)))
                continue
            p = payload(v, "Some")
            for s2, y2 in res_split(e, s, p):
                out.append((s2, ok(some(payload(p, "Ok"))) if y2 else err(payload(p, "Err"))))
    else:
        for s, y in res_split(e, st, v):
            if not y:
                out.append((s, some(err(payload(v, "Err")))))
                continue
            p = payload(v, "Ok")
            for s2, y2 in opt_split(e, s, p):
                out.append((s2, some(ok(payload(p, "Some"))) if y2 else NONE))
    return out


@model("Option::take")
def otake(e, st, j, args, t):
    v = V(e, st, args[0])
    if args[0].k == "ref":
        e.write_loc(st, (args[0].a[0], args[0].a[1]), args[0].a[2], NONE)
    return [(st, v)]


@model("mem::take")
def memtake(e, st, j, args, t):
    v = V(e, st, args[0])
    if args[0].k == "ref":
        e.write_loc(st, (args[0].a[0], args[0].a[1]), args[0].a[2], default_of(t["dt"][1]))
    return [(st, v)]


@model("mem::replace", "Option::replace", "Option::insert")
def memreplace(e, st, j, args, t):
    v = V(e, st, args[0])
    if args[0].k == "ref":
        nv = args[1] if "mem::" in j["name"] else some(args[1])
        e.write_loc(st, (args[0].a[0], args[0].a[1]), args[0].a[2], nv)
    return [(st, v)]


@model("mem::swap")
def memswap(e, st, j, args, t):
    a, b = V(e, st, args[0]), V(e, st, args[1])
    for r, v in ((args[0], b), (args[1], a)):
        if r.k == "ref":
            e.write_loc(st, (r.a[0], r.a[1]), r.a[2], v)
    return [(st, UNIT)]


# ------------------------------------------------------------------ lists and iterators
def islist(v):
    return v.k == "list"


def tolist(e, st, v):
    """items of a collection-like value"""
    v = V(e, st, v)
    if v.k == "list":
        return v
    if v.k == "iter":
        return v.a[0]
    return lst([("s", v)])


def setref(e, st, r, v):
    if r.k == "ref":
        e.write_loc(st, (r.a[0], r.a[1]), r.a[2], v)


@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "BTreeSet::new", "BTreeMap::new", "HashSet::new")
def vnew(e, st, j, args, t):
    return [(st, lst())]


@model("Vec::push", "VecDeque::push_back")
def vpush(e, st, j, args, t):
    if not e.event_ok and V(e, st, args[1]).k == "adt" and V(e, st, args[1]).a[0] == "Event" and args[0].k == "ref" and args[0].a[2][-1:] == (("f", "events"),):
        # response.events.push(event)
        args = [mk("ref", args[0].a[0], args[0].a[1], args[0].a[2][:-1] + (("f", "messages"),)), args[1]]
    l = tolist(e, st, args[0])
    setref(e, st, args[0], lst(l.a[0] + (("i", args[1]),)))
    return [(st, UNIT)]


@model("Vec::insert")
def vinsert(e, st, j, args, t):
    l = tolist(e, st, args[0])
    i = V(e, st, args[1])
    its = list(l.a[0])
    if i.k == "int" and concrete(l) and i.a[0] <= len(its):
        its.insert(i.a[0], ("i", args[2]))
    else:
        its.append(("i", args[2]))
    setref(e, st, args[0], lst(its))
    return [(st, UNIT)]


@model("Vec::append")
def vappend(e, st, j, args, t):
    l, m = tolist(e, st, args[0]), tolist(e, st, args[1])
    setref(e, st, args[0], lst(l.a[0] + m.a[0]))
    setref(e, st, args[1], lst())
    return [(st, UNIT)]


@model("Extend::extend", "Vec::extend_from_slice")
def vextend(e, st, j, args, t):
    out = []
    for s, m in materialise(e, st, args[1]):
        l = tolist(e, s, args[0])
        setref(e, s, args[0], lst(l.a[0] + m.a[0]))
        out.append((s, UNIT))
    return out


def top_of(l, last):
    """(range R, value) when the first (last=False) or last element of the list is the first record of
    the storage range R in iteration order, mapped one to one; the record itself is topel(R)"""
    src, val = None, None
    if l.k == "list" and len(l.a[0]) == 1:
        it = l.a[0][0]
        if it[0] == "s":
            src = it[1]
        elif it[0] == "m" and it[1].startswith("map:") and len(it[2]) == 1 and len(it[2][0][1]) == 1 and it[2][0][1][0][0] == "i":
            src = ALL[int(it[1][4:])]
            val = it[2][0][1][0][1]
    elif l.k in ("range", "call"):
        src = l
    if src is None:
        return None
    r = src
    while r.k == "call" and r.a[0] in ("take", "oks"):
        if r.a[0] == "oks":
            r = r.a[1][0]
            continue
        n = r.a[1][1]
        if n.k != "int" or n.a[0] < 1 or (last and n.a[0] != 1):
            return None
        last = last and n.a[0] != 1
        r = r.a[1][0]
    if r.k != "range" or last:
        return None
    top = mk("topel", r)
    if val is None:
        oks = src.k == "call" and src.a[0] == "oks"
        return r, (payload(top, "Ok") if oks else top)
    el = mk("elem", src)
    return r, tmap(lambda x: top if x is el else None, val)


def top_split(e, st, l, last):
    r = top_of(l, last)
    if r is None:
        return None
    return [(s, some(r[1]) if y else NONE) for s, y in e.split_variant(st, mk("first", r[0]), "Some", ("None", "Some"))]


@model("slice::has_coins", "has_coins")
def hascoins(e, st, j, args, t):
    l, r = D(e, st, args[0]), D(e, st, args[1])
    if concrete(l) and len(l.a[0]) == 1:
        c = l.a[0][0][1]
        return [(st, mk("and", cmp_("==", fld(c, "denom"), fld(r, "denom")), cmp_("<=", fld(r, "amount"), fld(c, "amount"))))]
    return [(st, mk("call", "has_coins", (l, r)))]


@model("QueryOptions::unpack")
def unpack(e, st, j, args, t):
    """sg_index_query: limit = min(limit or default 10, max 100), descending only if asked for"""
    o = D(e, st, args[0])
    out = []

    def opt(s, x, dflt):
        x = V(e, s, x)
        return [(s2, payload(x, "Some") if y else dflt) for s2, y in opt_split(e, s, x)]

    def bnd(s, x):
        res = []
        for s2, y in opt_split(e, s, x):
            if not y:
                res.append((s2, NONE))
                continue
            b = payload(x, "Some")
            for s3, inc in e.split_variant(s2, b, "Inclusive", ("Exclusive", "Inclusive")):
                off = fld(as_(b, "Inclusive" if inc else "Exclusive"), "0")
                for s4, k in e.apply(s3, args[1], [off]):
                    res.append((s4, some(mk("bound", "inclusive" if inc else "exclusive", D(e, s4, k)))))
        return res
    for s, lim in opt(st, fld(o, "limit"), None):
        for s1, lim in ([(s, lim)] if lim is not None else opt(s, args[2], I(10))):
            for s2, mx in opt(s1, args[3], I(100)):
                mx, lim = D(e, s2, mx), D(e, s2, lim)
                if lim.k == mx.k == "int":
                    n = I(min(lim.a[0], mx.a[0]))
                else:
                    a, b = (lim, mx) if lim.id <= mx.id else (mx, lim)
                    n = mk("call", "min", (a, b))
                for s3, y in opt_split(e, s2, fld(o, "descending")):
                    for s4, desc in (e.branch(s3, payload(fld(o, "descending"), "Some")) if y else [(s3, False)]):
                        od = mk("adt", "cosmwasm_std::Order", "Descending" if desc else "Ascending", ())
                        for s5, lo in bnd(s4, fld(o, "min")):
                            for s6, hi in bnd(s5, fld(o, "max")):
                                out.append((s6, adt("sg_index_query::QueryOptionsInternal", "QueryOptionsInternal", limit=n, order=od, min=lo, max=hi)))
    return out


@model("Vec::pop")
def vpop(e, st, j, args, t):
    l = tolist(e, st, args[0])
    if not concrete(l):
        r = top_split(e, st, D(e, st, l), True)
        if r is not None:
            d = D(e, st, l)
            for s, v in r:
                setref(e, s, args[0], mk("call", "popped", (d,)))
            return r
    if l.a[0] and l.a[0][-1][0] == "i":
        setref(e, st, args[0], lst(l.a[0][:-1]))
        return [(st, some(l.a[0][-1][1]))]
    if concrete(l):
        return [(st, NONE)]
    d = D(e, st, l)
    setref(e, st, args[0], mk("call", "popped", (d,)))
    return [(st, mk("call", "last", (unl(d),)))]


@model("Vec::remove", "Vec::swap_remove")
def vremove(e, st, j, args, t):
    l = tolist(e, st, args[0])
    i = V(e, st, args[1])
    if concrete(l) and i.k == "int" and i.a[0] < len(l.a[0]):
        its = list(l.a[0])
        x = its.pop(i.a[0])
        setref(e, st, args[0], lst(its))
        return [(st, x[1])]
    d = D(e, st, l)
    setref(e, st, args[0], mk("call", "removed-at", (unl(d), D(e, st, i))))
    return [(st, mk("call", "index", (unl(d), D(e, st, i))))]


def unl(d):
    """[*x] is x"""
    if d.k == "list" and len(d.a[0]) == 1 and d.a[0][0][0] == "s":
        return d.a[0][0][1]
    return d


@model("Vec::truncate")
def vtrunc(e, st, j, args, t):
    l, n = tolist(e, st, args[0]), V(e, st, args[1])
    if n.k == "int" and (concrete(l) or n.a[0] == 0):
        setref(e, st, args[0], lst(l.a[0][:n.a[0]]) if n.a[0] else lst())
    else:
        setref(e, st, args[0], lst([("s", mk("call", "take", (unl(D(e, st, l)), D(e, st, n))))]))
    return [(st, UNIT)]


@model("Vec::clear")
def vclear(e, st, j, args, t):
    setref(e, st, args[0], lst())
    return [(st, UNIT)]


@model("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "NativeBalance::is_empty", "VecDeque::is_empty")
def visempty(e, st, j, args, t):
    v = D(e, st, args[0])
    if v.k == "list":
        if concrete(v):
            return [(st, TRUE if not v.a[0] else FALSE)]
        if any(i[0] == "i" for i in v.a[0]):
            return [(st, FALSE)]
    return [(st, cmp_("==", mk("call", "len", (unl(v),)), I(0)))]


@model("Vec::len", "slice::len", "String::len", "str::len", "Iterator::count", "VecDeque::len", "ExactSizeIterator::len")
def vlen(e, st, j, args, t):
    v = D(e, st, args[0])
    if v.k == "iter":
        v = v.a[0]
    if concrete(v):
        return [(st, I(len(v.a[0])))]
    return [(st, mk("call", "len", (unl(v),)))]


@model("slice::first", "Vec::first", "slice::last", "Vec::last")
def vfirst(e, st, j, args, t):
    l = tolist(e, st, args[0])
    lastp = "last" in j["name"].split("::")[-1]
    if concrete(l):
        if not l.a[0]:
            return [(st, NONE)]
        return [(st, some(l.a[0][-1 if lastp else 0][1]))]
    r = top_split(e, st, D(e, st, l), lastp)
    if r is not None:
        return r
    r = funds_split(e, st, D(e, st, l), -1 if lastp else 0)
    if r is not None:
        return r
    return [(st, mk("call", "last" if lastp else "first", (unl(D(e, st, l)),)))]


def funds_split(e, st, l, i):
    """the first or last of the attached coins: absent exactly when there are none"""
    l = unl(l)
    if l.k != "fld" or l.a[1] != "funds":
        return None
    out = []
    for s, y in e.branch(st, cmp_("<", I(0), mk("call", "len", (l,)))):
        out.append((s, some(e.index(l, I(i))) if y else NONE))
    return out


@model("RangeInclusive::new")
def rangeincl(e, st, j, args, t):
    return [(st, adt("RangeInclusive", "RangeInclusive", start=V(e, st, args[0]), end=V(e, st, args[1])))]


@model("RangeInclusive::contains", "Range::contains", "RangeBounds::contains")
def rangecontains(e, st, j, args, t):
    r, x = D(e, st, args[0]), D(e, st, args[1])
    nm = r.a[0].split("::")[-1] if r.k == "adt" else ""
    if nm not in ("RangeInclusive", "Range", "RangeFrom", "RangeTo", "RangeToInclusive"):
        return None
    cs = []
    if nm in ("RangeInclusive", "Range", "RangeFrom"):
        cs.append(cmp_("<=", fld(r, "start"), x))
    if nm != "RangeFrom":
        cs.append(cmp_("<=" if "Inclusive" in nm else "<", x, fld(r, "end")))
    return [(st, cs[0] if len(cs) == 1 else mk("and", *cs))]


@model("slice::get", "Vec::get")
def vget(e, st, j, args, t):
    l = tolist(e, st, args[0])
    i = V(e, st, args[1])
    if concrete(l) and i.k == "int":
        return [(st, some(l.a[0][i.a[0]][1]) if i.a[0] < len(l.a[0]) else NONE)]
    if i.k == "int" and i.a[0] == 0:
        r = funds_split(e, st, D(e, st, l), 0)
        if r is not None:
            return r
        return [(st, mk("call", "first", (unl(D(e, st, l)),)))]
    return [(st, mk("call", "get", (unl(D(e, st, l)), D(e, st, i))))]


@model("Index::index", "IndexMut::index_mut")
def vindex(e, st, j, args, t):
    l = D(e, st, tolist(e, st, args[0]))
    if e.key_of(j) == "IndexMut::index_mut":
        return [(st, mk("call", "index", (unl(l), D(e, st, args[1]))))]
    return [(st, e.index(l if concrete(l) else unl(l), V(e, st, args[1])))]


@model("slice::sort", "slice::sort_by", "slice::sort_unstable", "Vec::dedup", "slice::sort_by_key", "slice::sort_unstable_by",
       "Vec::sort", "NativeBalance::normalize", "slice::reverse", "Vec::shrink_to_fit", "Vec::reserve")
def vsort(e, st, j, args, t):
    v = D(e, st, args[0])
    nm = j["name"].split("::")[-1]
    if nm in ("normalize", "shrink_to_fit", "reserve") or (concrete(v) and len(v.a[0]) < 2):
        return [(st, UNIT if nm != "normalize" else args[0])]
    setref(e, st, args[0], mk("call", nm, (unl(v),)))
    return [(st, UNIT)]


@model("NativeBalance::into_vec")
def nbvec(e, st, j, args, t):
    v = D(e, st, args[0])
    if v.k == "adt":
        return [(st, fld(v, "0"))]
    return [(st, mk("nbvec", v))]


@model("slice::join", "slice::concat", "Join::join")
def sjoin(e, st, j, args, t):
    return [(st, mk("call", "join", tuple(D(e, st, a) for a in args)))]


@model("slice::contains", "Vec::contains")
def scontains(e, st, j, args, t):
    l, x = D(e, st, tolist(e, st, args[0])), D(e, st, args[1])
    if concrete(l):
        if not l.a[0]:
            return [(st, FALSE)]
        xs = [eqnorm(e, cmp_("==", i[1], x)) for i in l.a[0]]
        return [(st, xs[0] if len(xs) == 1 else mk("or", *xs))]
    l = unl(l)
    return [(st, mk("any", l, cmp_("==", mk("elem", l), x)))]


@model("IntoIterator::into_iter", "slice::iter", "Vec::iter", "Vec::drain", "IntoIterator::iter", "VecDeque::iter", "slice::into_vec",
       "Iterator::by_ref", "DoubleEndedIterator::rev", "Iterator::rev", "Iterator::cloned", "Iterator::copied", "Iterator::peekable", "Iterator::fuse")
def intoiter(e, st, j, args, t):
    nm = j["name"].split("::")[-1]
    if nm == "by_ref":
        return [(st, args[0])]
    v = V(e, st, args[0])
    if nm == "into_vec":
        return [(st, v)]
    if nm == "drain":
        setref(e, st, args[0], lst())
    if v.k in ("iter", "it"):
        if nm == "rev":
            if v.k == "iter" and concrete(v.a[0]):
                return [(st, mk("iter", lst(v.a[0].a[0][::-1])))]
            return [(st, mk("it", "rev", v))]
        if v.k == "it" and nm == "into_iter":
            # a lazily mapped literal collection is followed element by element
            return [(s, mk("iter", l)) if concrete(l) else (s, v) for s, l in mat_try(e, st, v)]
        return [(st, v)]
    if v.k == "adt" and v.a[0] == "Option":
        return [(st, mk("iter", lst([("i", fld(v, "0"))] if v.a[1] == "Some" else [])))]
    if v.k == "list":
        return [(st, mk("iter", v))]
    if v.k == "call" and v.a[0] in ("range", "keys", "keys_raw", "prefix_range"):
        return [(st, mk("iter", lst([("s", v)])))]
    return [(st, mk("iter", lst([("s", D(e, st, v))])))]


def mat_try(e, st, v):
    base = v
    while base.k == "it":
        base = base.a[1]
    if base.k == "iter" and concrete(base.a[0]):
        return materialise(e, st, v)
    return [(st, lst([("s", mk("opaque", "lazy"))]))]


@model("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::take", "Iterator::skip", "Iterator::chain",
       "Iterator::enumerate", "Iterator::zip", "Iterator::flat_map", "Iterator::take_while", "Iterator::skip_while",
       "Iterator::inspect", "Iterator::flatten", "Iterator::map_while", "Iterator::step_by")
def itadapt(e, st, j, args, t):
    nm = j["name"].split("::")[-1]
    v = V(e, st, args[0])
    if v.k not in ("iter", "it"):
        v = mk("iter", tolist(e, st, v))
    return [(st, mk("it", nm, v, *args[1:]))]


def elem_of(e, st, l):
    """generic element of an abstract list: [(state, element)]"""
    l = D(e, st, l)
    return mk("elem", unl(l))


@model("Iterator::next", "DoubleEndedIterator::next_back")
def itnext(e, st, j, args, t):
    r = args[0]
    v = V(e, st, r)
    back = j["name"].endswith("next_back")
    if v.k == "iter" and v.a[0].k == "list":
        its = v.a[0].a[0]
        if not its:
            return [(st, NONE)]
        if its[-1 if back else 0][0] == "i":
            setref(e, st, r, mk("iter", lst(its[:-1] if back else its[1:])))
            return [(st, some(its[-1 if back else 0][1]))]
    out = []
    if v.k in ("iter", "it") and not back and r.k == "ref" and r.a[0] == e.once:
        # outside of any loop: the first record of a storage range
        ms = materialise(e, st.copy(), v)
        if len(ms) == 1 and ms[0][0].eff == st.eff:
            l = D(e, ms[0][0], ms[0][1])
            o = top_split(e, st, l, False)
            if o is not None:
                for s2, x in o:
                    setref(e, s2, r, mk("iter", lst([("s", mk("call", "rest", (unl(l),)))] if x is not NONE else [])))
                return o
    if v.k in ("iter", "it"):
        s2 = st.copy()
        if v.k == "iter" and v.a[0].k == "list":
            setref(e, s2, r, mk("iter", lst([])))
        out.append((s2, NONE))
        sk = skeleton(e, st, v)
        if back:
            sk = mk("call", "rev", (sk,))
        s2.b[mk("exhausted", sk)] = True
        for s, el, keep in gen_elem(e, st, v):
            if keep:
                walked(s, sk)
                out.append((s, some(el)))
        return out
    d = D(e, st, v)
    s2 = st.copy()
    sk = mk("call", "rev", (d,)) if back else d
    s2.b[mk("exhausted", sk)] = True
    walked(st, sk)
    return [(s2, NONE), (st, some(mk("elem", d)))]


def walked(st, sk):
    """an element of the walk sk was taken"""
    f = mk("iterates", sk)
    st.b[f if f not in st.b else mk("iterates", mk("call", "again", (sk,)))] = True


def skeleton(e, st, v):
    """what an iterator walks over, in which order and how far: the source collection under the
    adaptors that select positions (elements passed on by others are the source's)"""
    if v.k == "iter":
        return unl(D(e, st, v.a[0]))
    if v.k != "it":
        return D(e, st, v)
    nm, base = v.a[0], skeleton(e, st, v.a[1])
    if nm in ("map", "inspect", "enumerate"):
        return base
    return mk("call", nm, (base,) + tuple(D(e, st, x) for x in v.a[2:] if x.k != "clo"))


def lasting(facts):
    """facts of a round of a loop that do not speak about what the loop itself changes"""
    def ts(f):
        return f[1] if isinstance(f[1], tuple) else (f[1],)
    return [f for f in facts if not any(x.k in ("lv", "mark") for y in ts(f) for x in subterms(y))]


def gen_elem(e, st, v):
    """generic element of a lazy iterator: (state, element, produced?)"""
    if v.k == "iter":
        l = v.a[0]
        if concrete(l) and len(l.a[0]) == 1:
            return [(st, l.a[0][0][1], True)]
        if len(l.a[0]) == 1 and l.a[0][0][0] == "m":
            # elements built by an earlier summarised loop
            out = []
            for facts, items in l.a[0][0][2]:
                for it in items:
                    s = st.copy()
                    if not add_facts(e, s, lasting(facts)):
                        continue
                    out.append((s, it[1] if it[0] == "i" else mk("elem", it[1]), True))
            return out
        return [(st, elem_of(e, st, l), True)]
    nm, base = v.a[0], v.a[1]
    out = []
    for s, el, keep in gen_elem(e, st, base):
        if not keep:
            out.append((s, el, False))
            continue
        if nm == "try_map":
            for s2, r in e.apply(s, v.a[2], [el]):
                rv = V(e, s2, r)
                for s3, y in res_split(e, s2, rv):
                    out.append((s3, ok(payload(rv, "Ok")) if y else err(payload(rv, "Err")), True))
        elif nm == "map" or nm == "inspect":
            for s2, r in e.apply(s, v.a[2], [el]):
                out.append((s2, r if nm == "map" else el, True))
        elif nm in ("filter", "take_while", "skip_while"):
            for s2, r in e.apply(s, v.a[2], [el]):
                for s3, y in e.branch(s2, V(e, s2, r)):
                    if nm != "filter":
                        s3.b[mk("partial", nm, el)] = True
                    out.append((s3, el, y if nm != "skip_while" else True))
        elif nm in ("filter_map", "map_while"):
            for s2, r in e.apply(s, v.a[2], [el]):
                rv = V(e, s2, r)
                for s3, y in opt_split(e, s2, rv):
                    if nm == "map_while":
                        s3.b[mk("partial", nm, el)] = True
                    out.append((s3, payload(rv, "Some") if y else el, y))
        elif nm == "enumerate":
            out.append((s, tup(mk("opaque", "position"), el), True))
        elif nm == "zip":
            out.append((s, tup(el, mk("elem", D(e, s, v.a[2]))), True))
        elif nm == "chain":
            out.append((s, el, True))
        elif nm == "step_by":
            s.b[mk("partial", nm, el)] = True
            out.append((s, el, True))
            s2 = s.copy()
            o = V(e, s2, v.a[2])
            if o.k not in ("iter", "it"):
                o = mk("iter", tolist(e, s2, o))
            out += gen_elem(e, s2, o)
        elif nm in ("take", "skip", "rev", "step_by"):
            out.append((s, el, True))
        else:
            out.append((s, mk("elem", mk("call", nm, (D(e, s, el),))), True))
    return out


def add_facts(e, st, facts):
    for f in facts:
        if f[0] == "d":
            if f[2][0] == "is":
                if not e.assume_variant(st, f[1], f[2][1]):
                    return False
            else:
                for v in f[2][1]:
                    if not e.assume_not_variant(st, f[1], v):
                        return False
        elif f[0] == "o":
            cur = e.ordset(st, f[1][0], f[1][1]) & f[2]
            if not cur:
                return False
            e.setord(st, f[1][0], f[1][1], cur)
        else:
            if st.b.get(f[1], f[2]) != f[2]:
                return False
            st.b[f[1]] = f[2]
    return True


def materialise(e, st, v):
    """[(state, list)] of an iterator or collection"""
    v = V(e, st, v)
    if v.k == "list":
        return [(st, v)]
    if v.k == "iter":
        return [(st, v.a[0])]
    if v.k != "it":
        if v.k == "adt" and v.a[0] == "Option":
            return [(st, lst([("i", fld(v, "0"))] if v.a[1] == "Some" else []))]
        return [(st, lst([("s", D(e, st, v))]))]
    nm, base = v.a[0], v.a[1]
    if nm == "take" and V(e, st, base).k == "it" and V(e, st, base).a[0] == "map":
        # lazily mapped: the closure runs for exactly the elements taken
        b = V(e, st, base)
        nm, base = "map", mk("it", nm, b.a[1], *v.a[2:])
        v = mk("it", nm, base, *b.a[2:])
    out = []
    for s, l in materialise(e, st, base):
        if nm == "chain":
            for s2, m in materialise(e, s, v.a[2]):
                out.append((s2, lst(l.a[0] + m.a[0])))
            continue
        if nm == "rev":
            out.append((s, lst(l.a[0][::-1]) if concrete(l) else lst([("s", mk("call", "rev", (unl(D(e, s, l)),)))])))
            continue
        if nm in ("take", "skip"):
            n = V(e, s, v.a[2])
            if concrete(l) and n.k == "int":
                out.append((s, lst(l.a[0][:n.a[0]] if nm == "take" else l.a[0][n.a[0]:])))
            else:
                out.append((s, lst([("s", mk("call", nm, (unl(D(e, s, l)), D(e, s, n))))])))
            continue
        if nm in ("map", "filter", "filter_map", "enumerate", "inspect", "try_map"):
            if concrete(l):
                out += mat_concrete(e, s, nm, l, v)
                continue
            out.append(mat_abstract(e, s, nm, l, v))
            continue
        out.append((s, lst([("s", mk("call", nm, tuple([unl(D(e, s, l))] + [D(e, s, x) for x in v.a[2:]])))])))
    return out


def mat_concrete(e, st, nm, l, v):
    work = [(st, 0, ())]
    out = []
    while work:
        s, i, acc = work.pop()
        if i == len(l.a[0]):
            out.append((s, lst(acc)))
            continue
        el = l.a[0][i][1]
        if nm == "enumerate":
            work.append((s, i + 1, acc + (("i", tup(I(i), el)),)))
            continue
        for s2, r in e.apply(s, v.a[2], [el]):
            if nm == "map":
                work.append((s2, i + 1, acc + (("i", r),)))
            elif nm == "try_map":
                rv = V(e, s2, r)
                for s3, y in res_split(e, s2, rv):
                    if y:
                        work.append((s3, i + 1, acc + (("i", ok(payload(rv, "Ok"))),)))
                    else:
                        out.append((s3, lst(acc + (("i", err(payload(rv, "Err"))),))))
            elif nm == "inspect":
                work.append((s2, i + 1, acc + (("i", el),)))
            elif nm == "filter":
                for s3, y in e.branch(s2, V(e, s2, r)):
                    work.append((s3, i + 1, acc + ((("i", el),) if y else ())))
            else:
                rv = V(e, s2, r)
                for s3, y in opt_split(e, s2, rv):
                    work.append((s3, i + 1, acc + ((("i", payload(rv, "Some")),) if y else ())))
    return out


def mat_abstract(e, st, nm, l, v):
    """the generic application of the closure, as a summarised loop"""
    it = mk("it", nm, mk("iter", l), *v.a[2:])
    src = "map:" + str(unl(D(e, st, l)).id)
    frames = sorted(st.mem, key=str)
    havoc = set()
    for rnd in range(12):
        pre = st.copy()
        for k in {k for k, _ in havoc}:
            pre.mem[k] = e.havocked(k, (), st.mem[k], havoc, src)
        rounds = []
        for s, el, keep in gen_elem(e, pre.copy(), it):
            stop = nm == "try_map" and e.is_variant(s, V(e, s, el), "Err") is True
            rounds.append((s, el, keep, stop))
        new = set()
        for s, el, keep, stop in rounds:
            for k in frames if not stop else ():
                if s.mem.get(k) is not pre.mem[k]:
                    e.diff(k, (), pre.mem[k], s.mem.get(k, UNDEF), havoc, new)
        if not new:
            break
        havoc = e.widen(havoc, new)
    else:
        raise Unsupported("closure fixpoint")
    alts, effs, sub, vals = [], [], {}, {}
    for s, el, keep, stop in rounds:
        d = e.factdelta(pre, s)
        alts.append((d, (("i", D(e, s, el)),) if keep else ()))
        if stop:
            continue  # the walk ends here: not a round of a completed one
        effs.append((d, s.eff[len(pre.eff):]))
        for k, path in havoc:
            was, cur = e.leaf_at(pre.mem[k], path), e.leaf_at(s.mem.get(k, UNDEF), path)
            if was.k == "list":
                n = len(was.a[0])
                new = tuple(e.deepi(s, i) for i in cur.a[0][n:]) if cur.k == "list" and cur.a[0][:n] == was.a[0] else (("s", mk("opaque", "listchange")),)
                sub.setdefault(was.a[0][-1][1], []).append((d, new))
            else:
                vals.setdefault((k, path), []).append((d, D(e, s, cur)))
    if any(x[1] for x in effs):
        pre.eff += (("loop", src, tuple(effs)),)
    for (k, path), vs in vals.items():
        pre.loops = dict(pre.loops)
        pre.loops[e.leaf_at(pre.mem[k], path)] = (e.leaf_at(st.mem[k], path), tuple(vs))
    if sub:
        sub = {m: ("m", src, tuple(x)) for m, x in sub.items()}
        for k in {k for k, _ in havoc}:
            if pre.mem[k].mark:
                pre.mem[k] = e.submark(pre.mem[k], sub)
    return (pre, lst([("m", src, tuple(alts))]))


@model("Iterator::collect", "FromIterator::from_iter", "Iterator::try_collect")
def collect(e, st, j, args, t):
    head = str(t["dt"][1])
    out = []
    for s, l in materialise(e, st, args[0]):
        if head == "std::result::Result":
            out += collect_result(e, s, l)
        elif head == "std::option::Option":
            out += collect_option(e, s, l)
        else:
            out.append((s, l))
    return out


def collect_result(e, st, l):
    if concrete(l):
        work, out = [(st, 0, ())], []
        while work:
            s, i, acc = work.pop()
            if i == len(l.a[0]):
                out.append((s, ok(lst(acc))))
                continue
            r = V(e, s, l.a[0][i][1])
            for s2, y in res_split(e, s, r):
                if y:
                    work.append((s2, i + 1, acc + (("i", payload(r, "Ok")),)))
                else:
                    out.append((s2, err(payload(r, "Err"))))
        return out
    items, may_err, errs = [], False, []
    for it in l.a[0]:
        if it[0] == "m":
            alts = []
            for facts, its in it[2]:
                if not its:
                    alts.append((facts, ()))
                    continue
                r = its[0][1]
                if r.k == "adt" and r.a[0] == "Result":
                    if r.a[1] == "Ok":
                        alts.append((facts, (("i", fld(r, "0")),)))
                    else:
                        errs.append((facts, fld(r, "0"), None))
                else:
                    errs.append((facts, payload(r, "Err"), r))
                    alts.append((facts, (("i", payload(r, "Ok")),)))
            items.append(("m", it[1], tuple(alts)))
        elif it[0] == "i":
            may_err = True
            items.append(("i", payload(it[1], "Ok")))
        else:
            may_err = True
            items.append(("s", mk("call", "oks", (it[1],))))
    out = [(st, ok(lst(items)))]
    if may_err or errs and not e.keep_refusals:
        out.append((st.copy(), err(mk("opaque", "element-error"))))
    for facts, x, r in errs if e.keep_refusals else ():
        # the element whose turn it was is the one that failed
        s = st.copy()
        if add_facts(e, s, facts):
            out += [(s2, err(x)) for s2, y in (res_split(e, s, r) if r is not None else [(s, False)]) if not y]
    return out


def collect_option(e, st, l):
    return [(st, some(lst([("s", mk("call", "somes", (unl(D(e, st, l)),)))]))), (st.copy(), NONE)]


@model("Iterator::any", "Iterator::all")
def itany(e, st, j, args, t):
    nm = j["name"].split("::")[-1]
    v = V(e, st, args[0])
    if v.k == "it":
        ms = materialise(e, st, v)
    else:
        ms = [(st, tolist(e, st, v))]
    out = []
    for s, l in ms:
        if concrete(l):
            stop = nm == "any"
            work = [(s, 0)]
            while work:
                s1, i = work.pop()
                if i == len(l.a[0]):
                    out.append((s1, FALSE if stop else TRUE))
                    continue
                for s2, r in e.apply(s1, args[1], [l.a[0][i][1]]):
                    for s3, y in e.branch(s2, V(e, s2, r)):
                        if y == stop:
                            out.append((s3, TRUE if stop else FALSE))
                        else:
                            work.append((s3, i + 1))
            continue
        src = unl(D(e, s, l))
        p = pred(e, s, args[1], elem_of(e, s, l))
        if nm == "any":
            out.append((s, mk("any", src, p)))
        else:
            out.append((s, not_(mk("any", src, not_(p)))))
    return out


def pred(e, st, clo, el):
    """the predicate a closure computes, as a boolean term"""
    s = st.copy()
    outs = []
    for s2, r in e.apply(s, clo, [el]):
        r = D(e, s2, r)
        d = e.factdelta(st, s2)
        outs.append((d, r))
    if len(outs) == 1 and not outs[0][0]:
        return outs[0][1]
    return mk("alts", tuple(outs))


@model("Iterator::find", "Iterator::position", "Iterator::find_map")
def itfind(e, st, j, args, t):
    nm = j["name"].split("::")[-1]
    out = []
    for s, l in materialise(e, st, V(e, st, args[0])):
        if concrete(l) and nm == "find":
            work = [(s, 0)]
            while work:
                s1, i = work.pop()
                if i == len(l.a[0]):
                    out.append((s1, NONE))
                    continue
                for s2, r in e.apply(s1, args[1], [l.a[0][i][1]]):
                    for s3, y in e.branch(s2, V(e, s2, r)):
                        if y:
                            out.append((s3, some(l.a[0][i][1])))
                        else:
                            work.append((s3, i + 1))
            continue
        src = unl(D(e, s, l))
        p = pred(e, s, args[1], elem_of(e, s, l))
        for s2, y in e.branch(s, mk("any", src, p)):
            if not y:
                out.append((s2, NONE))
            elif nm == "find":
                x = mk("elemsat", src, p)
                for s3, r in e.apply(s2, args[1], [x]):
                    for s4, z in e.branch(s3, V(e, s3, r)):
                        if z:
                            out.append((s4, some(x)))
            elif nm == "position":
                out.append((s2, some(mk("call", "position", (src, p)))))
            else:
                out.append((s2, some(mk("call", "found", (src, p)))))
    return out


@model("Iterator::for_each", "Iterator::try_for_each")
def foreach(e, st, j, args, t):
    nm = j["name"].split("::")[-1]
    v = V(e, st, args[0])
    if v.k not in ("iter", "it"):
        v = mk("iter", tolist(e, st, v))
    out = []
    for s, l in materialise(e, st, mk("it", "map" if nm == "for_each" else "try_map", v, args[1])):
        if nm == "for_each":
            out.append((s, UNIT))
        else:
            for s2, r in collect_result(e, s, l):
                out.append((s2, ok(UNIT) if r.a[1] == "Ok" else r))
    return out


@model("Iterator::fold", "Iterator::try_fold")
def itfold(e, st, j, args, t):
    nm = j["name"].split("::")[-1]
    out = []
    for s, l in materialise(e, st, V(e, st, args[0])):
        if concrete(l):
            work = [(s, 0, args[1])]
            while work:
                s1, i, acc = work.pop()
                if i == len(l.a[0]):
                    out.append((s1, acc if nm == "fold" else ok(acc)))
                    continue
                for s2, r in e.apply(s1, args[2], [acc, l.a[0][i][1]]):
                    if nm == "fold":
                        work.append((s2, i + 1, r))
                    else:
                        rv = V(e, s2, r)
                        for s3, y in res_split(e, s2, rv):
                            if y:
                                work.append((s3, i + 1, payload(rv, "Ok")))
                            else:
                                out.append((s3, err(payload(rv, "Err"))))
            continue
        out += fold_abstract(e, s, nm, l, args)
    return out


def fold_abstract(e, st, nm, l, args):
    """the accumulator is a cell that every round of the walk overwrites"""
    e.heap += 1
    cell = ("heap", e.heap)
    st.mem[cell] = V(e, st, args[1])
    f = V(e, st, args[2])
    clo = mk("foldclo", f, e.heap, nm == "try_fold")
    s, m = mat_abstract(e, st, "try_map" if nm == "try_fold" else "map", l, mk("it", nm, mk("iter", l), clo))
    acc = s.mem[cell]
    if nm == "fold":
        return [(s, acc)]
    out = []
    for s2, r in collect_result(e, s, m):
        out.append((s2, ok(acc) if r.a[1] == "Ok" else r))
    return out


def foldstep(e, st, clo, args):
    cell = ("heap", clo.a[1])
    out = []
    for s, r in e.apply(st, clo.a[0], [st.mem[cell]] + list(args)):
        if not clo.a[2]:
            s.mem[cell] = V(e, s, r)
            out.append((s, UNIT))
            continue
        rv = V(e, s, r)
        for s2, y in res_split(e, s, rv):
            if y:
                s2.mem[cell] = payload(rv, "Ok")
            out.append((s2, ok(UNIT) if y else err(payload(rv, "Err"))))
    return out


@model("Iterator::sum")
def itsum(e, st, j, args, t):
    out = []
    for s, l in materialise(e, st, V(e, st, args[0])):
        if concrete(l):
            v = I(0)
            for i in l.a[0]:
                v = binop("add", v, D(e, s, i[1])) if v is not I(0) else D(e, s, i[1])
            out.append((s, v))
        else:
            out.append((s, mk("call", "sum", (unl(D(e, s, l)),))))
    return out


@model("Box::new_uninit")
def boxuninit(e, st, j, args, t):
    e.heap += 1
    return [(st, mk("ref", "heap", e.heap, (), True))]


@model("boxed::box_assume_init_into_vec_unsafe", "box_assume_init_into_vec_unsafe", "Box::assume_init", "Vec::from", "Box::into_vec")
def boxvec(e, st, j, args, t):
    return [(st, V(e, st, args[0]))]


# ------------------------------------------------------------------ responses and messages
RESP0 = adt("Response", "Response", messages=lst())


@model("Response::new", "Response::default")
def respnew(e, st, j, args, t):
    return [(st, RESP0)]


@model("Response::add_attribute", "Response::add_event", "Response::add_attributes", "Response::add_events", "Response::set_data")
def respid(e, st, j, args, t):
    if e.event_ok:
        return [(st, V(e, st, args[0]))]
    r = V(e, st, args[0])
    nm = j["name"].split("::")[-1]
    if nm == "set_data":
        return [(st, r)]
    # events go where the messages go, in order
    if nm == "add_event":
        return [(st, addmsgs(e, st, r, [("i", V(e, st, args[1]))]))]
    if nm == "add_attribute":
        return [(st, addmsgs(e, st, r, [("i", event_(S("wasm"), [("i", tup(D(e, st, args[1]), D(e, st, args[2])))]))]))]
    out = []
    for s, l in materialise(e, st, args[1]):
        its = list(l.a[0]) if nm == "add_events" else [("i", event_(S("wasm"), l.a[0]))]
        out.append((s, addmsgs(e, s, r, its)))
    return out


def event_(ty, attrs):
    return adt("Event", "Event", ty=ty, attributes=lst(attrs))


@model("Event::new")
def evnew(e, st, j, args, t):
    return None if e.event_ok else [(st, event_(D(e, st, args[0]), ()))]


@model("Event::add_attribute", "Event::add_attributes")
def evattr(e, st, j, args, t):
    if e.event_ok:
        return None
    r = V(e, st, args[0])
    a = V(e, st, fld(r, "attributes"))
    if a.k != "list":
        return None
    if len(args) == 3:
        return [(st, upd(r, (("f", "attributes"),), lst(a.a[0] + (("i", tup(D(e, st, args[1]), D(e, st, args[2]))),))))]
    return [(s, upd(r, (("f", "attributes"),), lst(a.a[0] + l.a[0]))) for s, l in materialise(e, st, args[1])]


@model("cosmwasm_std::attr", "Attribute::new")
def attrnew(e, st, j, args, t):
    return None if e.event_ok else [(st, tup(D(e, st, args[0]), D(e, st, args[1])))]


def addmsgs(e, st, r, items):
    r = V(e, st, r)
    if r.k == "adt" or r.k == "upd":
        m = V(e, st, fld(r, "messages"))
        if m.k == "list":
            return upd(r, (("f", "messages"),), lst(m.a[0] + tuple(items)))
    return adt("Response", "Response", messages=lst((("s", mk("fld", r, "messages")),) + tuple(items)))


def submsg(m, ro="Never", id=I(0)):
    if m.k == "submsg":
        return m
    return mk("submsg", m, ro, id)


@model("Response::add_message")
def addmsg(e, st, j, args, t):
    return [(st, addmsgs(e, st, args[0], [("i", submsg(D(e, st, args[1])))]))]


@model("Response::add_submessage")
def addsub(e, st, j, args, t):
    return [(st, addmsgs(e, st, args[0], [("i", D(e, st, args[1]))]))]


@model("Response::add_messages", "Response::add_submessages")
def addmany(e, st, j, args, t):
    wrapm = j["name"].endswith("add_messages")
    out = []
    for s, l in materialise(e, st, args[1]):
        its = []
        for i in l.a[0]:
            if i[0] == "i":
                x = D(e, s, i[1])
                its.append(("i", submsg(x) if wrapm else x))
            else:
                its.append(e.deepi(s, i))
        out.append((s, addmsgs(e, s, args[0], its)))
    return out


@model("SubMsg::new")
def submsgnew(e, st, j, args, t):
    return [(st, submsg(D(e, st, args[0])))]


@model("SubMsg::reply_on_error", "SubMsg::reply_on_success", "SubMsg::reply_always", "SubMsg::reply_never")
def submsgreply(e, st, j, args, t):
    ro = {"reply_on_error": "Error", "reply_on_success": "Success", "reply_always": "Always", "reply_never": "Never"}[j["name"].split("::")[-1]]
    return [(st, mk("submsg", D(e, st, args[0]), ro, D(e, st, args[1]) if len(args) > 1 else I(0)))]


@model("to_json_binary", "cosmwasm_std::to_json_binary", "cosmwasm_std::to_binary", "cosmwasm_std::to_json_vec", "cosmwasm_std::to_vec")
def tojson(e, st, j, args, t):
    return [(st, ok(mk("json", D(e, st, args[0]), (j.get("args") or "[]")[1:-1])))]


@model("cosmwasm_std::wasm_execute")
def wasmexec(e, st, j, args, t):
    return [(st, ok(adt("cosmwasm_std::WasmMsg", "Execute", contract_addr=D(e, st, args[0]), msg=mk("json", D(e, st, args[1])), funds=D(e, st, args[2]))))]


@model("cosmwasm_std::coin", "Coin::new")
def coin(e, st, j, args, t):
    return [(st, adt("cosmwasm_std::Coin", "Coin", amount=D(e, st, args[0]), denom=D(e, st, args[1])))]


@model("cosmwasm_std::coins")
def coins(e, st, j, args, t):
    return [(st, lst([("i", adt("cosmwasm_std::Coin", "Coin", amount=D(e, st, args[0]), denom=D(e, st, args[1])))]))]


@model("sg1::fair_burn")
def fairburn(e, st, j, args, t):
    r = args[2]
    m = mk("burn", D(e, st, args[0]), D(e, st, args[1]))
    setref(e, st, r, addmsgs(e, st, r, [("i", submsg(m))]))
    return [(st, UNIT)]


@model("stargaze_fair_burn::append_fair_burn_msg")
def fairburn2(e, st, j, args, t):
    m = mk("fairburn", D(e, st, args[0]), D(e, st, args[1]), D(e, st, args[2]))
    return [(st, addmsgs(e, st, args[3], [("i", submsg(m))]))]


# ------------------------------------------------------------------ address / funds helpers
@model("Api::addr_validate")
def addrval(e, st, j, args, t):
    x = D(e, st, args[1])
    return fallible(e, st, mk("valid", x), ("addr", x))


@model("cw_utils::maybe_addr")
def maybeaddr(e, st, j, args, t):
    v = V(e, st, args[1])
    out = []
    for s, y in opt_split(e, st, v):
        if not y:
            out.append((s, ok(NONE)))
            continue
        p = D(e, s, payload(v, "Some"))
        for s2, r in fallible(e, s, mk("valid", p), ("addr", p)):
            out.append((s2, ok(some(fld(r, "0"))) if r.a[1] == "Ok" else r))
    return out


def funds_of(e, st, a):
    return fld(D(e, st, a), "funds")


@model("cw_utils::nonpayable")
def nonpayable(e, st, j, args, t):
    f = funds_of(e, st, args[0])
    out = []
    for s, y in e.branch(st, cmp_("==", mk("call", "len", (f,)), I(0))):
        out.append((s, ok(UNIT) if y else err(mk("failed", "nonpayable"))))
    return out


@model("cw_utils::must_pay", "cw_utils::one_coin", "cw_utils::may_pay")
def mustpay(e, st, j, args, t):
    f = funds_of(e, st, args[0])
    nm = j["name"].split("::")[-1]
    tag = ("funds", nm, f) + tuple(D(e, st, a) for a in args[1:])
    v = mk("paid", *tag[1:])
    return fallible(e, st, v, tag)


# ------------------------------------------------------------------ storage
def ns_of(v):
    if v.k == "adt":
        for f in ("ns", "namespace"):
            for n, x in v.a[2]:
                if n == f:
                    return x
    return mk("call", "namespace", (v,))


@model("Item::new", "Map::new", "Hooks::new", "Deque::new", "SnapshotMap::new", "SnapshotItem::new", "Admin::new")
def snew(e, st, j, args, t):
    k = e.key_of(j).split("::")[0]
    return [(st, adt(k, k, ns=D(e, st, args[0])))]


@model("IndexedMap::new")
def imnew(e, st, j, args, t):
    return [(st, adt("IndexedMap", "IndexedMap", ns=D(e, st, args[0]), idx=D(e, st, args[1])))]


@model("MultiIndex::new")
def minew(e, st, j, args, t):
    return [(st, adt("MultiIndex", "MultiIndex", f=D(e, st, args[0]), pk_ns=D(e, st, args[1]), ns=D(e, st, args[2])))]


@model("UniqueIndex::new")
def uinew(e, st, j, args, t):
    return [(st, adt("UniqueIndex", "UniqueIndex", f=D(e, st, args[0]), ns=D(e, st, args[1])))]


def sargs(e, st, j, args):
    kind = e.key_of(j).split("::")[0]
    ns = ns_of(D(e, st, args[0]))
    if kind in ("Item", "SnapshotItem"):
        return ns, UNIT, args[2:]
    return ns, D(e, st, args[2]), args[3:]


def lookup(st, ns, key):
    """(known?, value or None, version) of a record on this path"""
    ver = 0
    for ef in reversed(st.eff):
        if ef[0] in ("save", "remove") and ef[1] is ns:
            if ef[2] is key:
                return True, (ef[3] if ef[0] == "save" else None), 0
            ver += 1
        elif ef[0] == "loop":
            for alt in ef[2]:
                for x in alt[1]:
                    if x[0] in ("save", "remove") and x[1] is ns:
                        ver += 1
    return False, None, ver


@model("Item::may_load", "Map::may_load", "IndexedMap::may_load")
def mayload(e, st, j, args, t):
    ns, key, _ = sargs(e, st, j, args)
    known, v, ver = lookup(st, ns, key)
    if known:
        return [(st, ok(some(v) if v is not None else NONE))]
    return [(st, ok(mk("mayload", ns, key, ver)))]


@model("Item::load", "Map::load", "IndexedMap::load")
def load(e, st, j, args, t):
    ns, key, _ = sargs(e, st, j, args)
    known, v, ver = lookup(st, ns, key)
    if known:
        return [(st, ok(v) if v is not None else err(mk("failed", "notfound")))]
    m = mk("mayload", ns, key, ver)
    return [(s, ok(mk("stored", ns, key, ver)) if y else err(mk("failed", "notfound", ns, key)))
            for s, y in e.split_variant(st, m, "Some", ("None", "Some"))]


@model("Item::exists", "Map::has", "IndexedMap::has")
def has(e, st, j, args, t):
    ns, key, _ = sargs(e, st, j, args)
    known, v, ver = lookup(st, ns, key)
    if known:
        return [(st, TRUE if v is not None else FALSE)]
    return [(st, mk("isvar", mk("mayload", ns, key, ver), "Some", ("None", "Some")))]


@model("Item::save", "Map::save", "IndexedMap::save", "IndexedMap::replace")
def save(e, st, j, args, t):
    ns, key, rest = sargs(e, st, j, args)
    v = D(e, st, rest[0])
    if e.key_of(j).endswith("replace"):
        out = []
        for s, y in e.split_variant(st, v, "Some", ("None", "Some")):
            if y:
                s.eff += (("save", ns, key, payload(v, "Some"), s.stack[-1], t.get("sp", "")),)
            else:
                s.eff += (("remove", ns, key, None, s.stack[-1], t.get("sp", "")),)
            out.append((s, ok(UNIT)))
        return out
    st.eff += (("save", ns, key, v, st.stack[-1] if st.stack else "", t.get("sp", "")),)
    return [(st, ok(UNIT))]


@model("Item::remove", "Map::remove", "IndexedMap::remove")
def remove(e, st, j, args, t):
    ns, key, rest = sargs(e, st, j, args)
    st.eff += (("remove", ns, key, None, st.stack[-1] if st.stack else "", t.get("sp", "")),)
    return [(st, ok(UNIT) if e.key_of(j).startswith("IndexedMap") else UNIT)]


@model("Item::update", "Map::update", "IndexedMap::update")
def update(e, st, j, args, t):
    ns, key, rest = sargs(e, st, j, args)
    known, v, ver = lookup(st, ns, key)
    item = e.key_of(j).startswith("Item")
    out = []
    if known:
        starts = [(st, v)]
        cur = [(st, (some(v) if v is not None else NONE))]
    else:
        m = mk("mayload", ns, key, ver)
        cur = [(s, some(mk("stored", ns, key, ver)) if y else NONE)
               for s, y in e.split_variant(st, m, "Some", ("None", "Some"))]
    for s, o in cur:
        if item:
            if o.a[1] == "None":
                out.append((s, err(mk("failed", "notfound"))))
                continue
            o = fld(o, "0")
        for s2, r in e.apply(s, rest[0], [o]):
            rv = V(e, s2, r)
            for s3, y in res_split(e, s2, rv):
                if y:
                    nv = D(e, s3, payload(rv, "Ok"))
                    s3.eff += (("save", ns, key, nv, s3.stack[-1], t.get("sp", "")),)
                    out.append((s3, ok(nv)))
                else:
                    out.append((s3, err(payload(rv, "Err"))))
    return out


@model("Map::clear", "IndexedMap::clear")
def sclear(e, st, j, args, t):
    ns = ns_of(D(e, st, args[0]))
    st.eff += (("remove", ns, mk("call", "all-keys", ()), None, st.stack[-1], t.get("sp", "")),)
    return [(st, UNIT)]


@model("MultiIndex::prefix", "MultiIndex::sub_prefix", "IndexedMap::prefix", "IndexedMap::sub_prefix", "Map::prefix", "Map::sub_prefix")
def prefix(e, st, j, args, t):
    d = D(e, st, args[0])
    return [(st, mk("prefix", e.key_of(j).split("::")[0], ns_of(d), D(e, st, args[1])))]


@model("MultiIndex::range", "Prefix::range", "IndexedMap::range", "Map::range", "Prefix::range_raw", "Prefix::keys", "Prefix::keys_raw",
       "MultiIndex::keys", "MultiIndex::range_raw", "MultiIndex::keys_raw", "IndexedMap::keys", "Map::keys", "Map::keys_raw", "IndexedMap::keys_raw",
       "IndexedMap::prefix_range", "Map::prefix_range", "MultiIndex::prefix_range", "IndexedMap::range_raw", "Map::range_raw")
def srange(e, st, j, args, t):
    d = D(e, st, args[0])
    k = e.key_of(j)
    if d.k == "adt":
        d = mk("prefix", k.split("::")[0], ns_of(d), UNIT)
    mn, mx, od = (D(e, st, a) for a in args[2:5])
    return [(st, mk("range", k.split("::")[1], d, mn, mx, od))]


@model("Bound::exclusive", "Bound::inclusive")
def bound(e, st, j, args, t):
    nm = j["name"].split("::")[-1]
    return [(st, mk("bound", nm, D(e, st, args[0])))]


# hooks of sg_controllers
@model("Hooks::prepare_hooks")
def prephooks(e, st, j, args, t):
    ns = ns_of(D(e, st, args[0]))
    src = mk("hooks", ns)
    out = []
    for s, l in materialise(e, st, mk("it", "map", mk("iter", lst([("s", src)])), args[2])):
        out += collect_result(e, s, l)
    return out


@model("Hooks::add_hook", "Hooks::remove_hook")
def hookmut(e, st, j, args, t):
    ns = ns_of(D(e, st, args[0]))
    nm = j["name"].split("::")[-1]
    a = D(e, st, args[2])
    out = []
    for s, r in fallible(e, st, UNIT, (nm, ns, a)):
        if r.a[1] == "Ok":
            s.eff += ((nm, ns, a, None, s.stack[-1] if s.stack else "", t.get("sp", "")),)
        out.append((s, r))
    return out


@model("Hooks::query_hooks")
def hookq(e, st, j, args, t):
    return fallible(e, st, adtl("HooksResponse", "HooksResponse", [("hooks", mk("hooks", ns_of(D(e, st, args[0]))))]), ("load", ns_of(D(e, st, args[0]))))


@model("cw2::set_contract_version")
def setver(e, st, j, args, t):
    st.eff += (("save", S("contract_info"), UNIT, tup(D(e, st, args[1]), D(e, st, args[2])), st.stack[-1] if st.stack else "", t.get("sp", "")),)
    return [(st, ok(UNIT))]


@model("cw2::get_contract_version")
def getver(e, st, j, args, t):
    return fallible(e, st, mk("stored", S("contract_info"), UNIT, 0), ("load", S("contract_info")))


# ------------------------------------------------------------------ formatting is irrelevant
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Arguments::new", "Arguments::from_str", "fmt::format",
       "Arguments::new_const", "Arguments::new_v1", "Formatter::write_fmt", "Formatter::write_str", "fmt::must_use", "Argument::new_lower_exp")
def fmt(e, st, j, args, t):
    return [(st, mk("call", "fmt", tuple(D(e, st, a) for a in args)))]
