"""The published TypeScript package: what its clients, message composers and query hooks send, for all arguments, against
the messages the contracts of this tree take and the answers they promise."""
import json, os, re, subprocess, tempfile
import build as mirbuild
import upgrade
from registry import program
from common import V1, RA

HERE = os.path.dirname(os.path.abspath(__file__))
TS = os.environ.get("VP_TYPESCRIPT", "/opt/veriftools/node/node_modules/typescript")
PACKAGE = "typescript/packages/marketplace-types/src"
NAME = {V1: "Marketplace", RA: "ReserveAuction"}
ID = {V1: "T01", RA: "T02"}
CACHE = {}

camel = lambda n: re.sub(r"_(\w)", lambda m: m.group(1).upper(), n)
pascal = lambda n: camel("_" + n)


def package():
    if "r" not in CACHE:
        with tempfile.TemporaryDirectory() as d:
            out = os.path.join(d, "r.json")
            r = subprocess.run(["node", os.path.join(HERE, "..", "engine", "ts", "clients.js"), TS, os.path.join(mirbuild.REPO, PACKAGE), out],
                               capture_output=True, text=True, timeout=600)
            if r.returncode:
                raise RuntimeError("the TypeScript package cannot be analysed: " + r.stderr[-1500:])
            CACHE["r"] = json.load(open(out))
    return CACHE["r"]


# ---------------------------------------------------------------- types
NUMBER = re.compile(r"^[ui](8|16|32|64)$")
OUTSIDE = {  # forms of types defined outside this program
    "cw_utils::Duration": {"choice": {"height": "u64", "time": "u64"}},
    "sg_controllers::HooksResponse": {"record": {"hooks": ["Vec", "text"]}},
    "cosmwasm_std::Coin": {"record": {"denom": "text", "amount": "cosmwasm_std::Uint128"}},
    "cosmwasm_std::Empty": {"record": {}},
    "sg_marketplace_common::query::QueryOptions": lambda t: {"record": {"descending": ["Option", "bool"], "limit": ["Option", "u32"], "start_after": ["Option", t]}},
}
WORDS = {"text", "cosmwasm_std::Uint128", "cosmwasm_std::Uint64", "cosmwasm_std::Decimal", "cosmwasm_std::Timestamp", "cosmwasm_std::Uint256",
         "cosmwasm_std::Binary", "cosmwasm_std::Addr", "cosmwasm_std::Int128"}


def parts(t):
    """alternatives of a type, and whether it may be absent"""
    xs = t["union"] if isinstance(t, dict) and "union" in t else [t]
    out, nul = [], False
    for x in xs:
        if x.get("prim") in ("undefined", "null"):
            nul = True
        elif x.get("lit", "") is None:
            nul = True
        else:
            out.append(x)
    return out, nul


def compat(t, f, where, sent, opt=False):
    """problems: values of the type are sent as the form (sent), or the form is answered where the type is promised"""
    alts, nul = parts(t)
    nul |= opt
    if any("any" in x for x in alts):
        return []
    if isinstance(f, list) and f[0] == "Option":
        if not nul:
            return ["%s can%s be left out, the type says it is always there" % (where, "" if sent else " also")]
        return compat({"union": alts}, f[1], where, sent)
    if nul and sent:
        return ["%s is required, the type lets it be left out" % where]
    if isinstance(f, list) and f[0] == "Vec":
        if len(alts) != 1 or "array" not in alts[0]:
            return ["%s is a list" % where]
        return compat(alts[0]["array"], f[1], where + "[]", sent)
    if isinstance(f, list) and f[0] in OUTSIDE:
        f = OUTSIDE[f[0]](*f[1:])
    elif isinstance(f, str) and f in OUTSIDE:
        f = OUTSIDE[f]
    if isinstance(f, str):
        if NUMBER.match(f):
            want, ok = "a number", all(x.get("prim") == "number" or isinstance(x.get("lit"), (int, float)) and not isinstance(x.get("lit"), bool) for x in alts)
        elif f == "bool":
            want, ok = "a boolean", all(x.get("prim") == "boolean" or isinstance(x.get("lit"), bool) for x in alts)
        elif f in WORDS:
            want, ok = "a string", all(x.get("prim") == "string" or isinstance(x.get("lit"), str) for x in alts)
        else:
            raise ValueError("no form is known for %s" % f)
        if sent is False and any("lit" in x for x in alts):
            ok = False
        return [] if ok and alts else ["%s is %s, the type says %s" % (where, want, json.dumps(t)[:100])]
    if not isinstance(f, dict):
        raise ValueError("no form is known for %s" % json.dumps(f))
    if "record" in f:
        if f.get("word"):
            return [] if all("lit" in x for x in alts) else ["%s is a word" % where]
        if len(alts) != 1 or "object" not in alts[0]:
            return ["%s is an object, the type says %s" % (where, json.dumps(t)[:100])]
        o, out = alts[0]["object"], []
        for n, g in f["record"].items():
            if n in o:
                out += compat(o[n][0], g, where + "." + n, sent, o[n][1])
            elif sent and n not in f.get("default", ()):
                out.append("%s.%s cannot be given" % (where, n))
        for n in o:
            if n not in f["record"]:
                out.append("%s.%s is not known to the contract" % (where, n))
        return out
    out, seen = [], set()
    for x in alts:
        if "lit" in x:
            vs = {x["lit"]: None}
        elif "object" in x:
            vs = {k: v[0] for k, v in x["object"].items() if not v[1] or parts(v[0])[0]}
            if len(vs) != 1:
                return ["%s: one alternative carries %s" % (where, sorted(vs))]
        else:
            return ["%s is one of %s, the type says %s" % (where, sorted(f["choice"]), json.dumps(t)[:100])]
        for n, inner in vs.items():
            seen.add(n)
            g = f["choice"].get(n)
            if g is None:
                out.append("%s has no alternative %s" % (where, n))
            elif isinstance(g, dict) and g.get("word") and inner is not None or inner is None and not (isinstance(g, dict) and g.get("word")):
                out.append("%s.%s has the wrong form" % (where, n))
            elif inner is not None:
                out += compat(inner, g, where + "." + n, sent)
    for n in f["choice"]:
        if n not in seen:
            out.append("%s: alternative %s is missing" % (where, n))
    return out


# ---------------------------------------------------------------- messages
ABSENT = (["undef"], ["lit", None])


def absent(conds, x, solid=False):
    """the path is only taken when the value is left out"""
    return any(c[1] == x and (c[0] in ("undef", "null", "nullish") and c[2] or solid and c[0] == "truthy" and not c[2]) for c in conds)


def solid(t):
    """a value of this type is only falsy when it is left out"""
    return all("object" in x or "array" in x or "func" in x for x in parts(t)[0])


def fields_of(body, param, want, types):
    """{name: term} of a record, or None; an argument that is passed on whole contributes its own fields"""
    if body == param:
        body = ["obj", [], [param]]
    if body[0] != "obj":
        return None
    got = {}
    for o in body[2]:
        taken = ()
        if o[0] == "rest" and o[1] == param:
            taken = o[2]
        elif o != param:
            return None
        for n in types or {}:
            if n not in taken:
                got[n] = ["get", param, n]
    for n, v in body[1]:
        if v[0] == "over":
            if v[1] == param and v[2] in (types or {}):
                continue
            v = v[3]
        got[n] = v
    return got


def message_problems(t, variant, form, param, types, conds):
    if t[0] != "obj" or t[2] or [x[0] for x in t[1]] != [variant]:
        return ["the message is %s, not %s" % ([x[0] for x in t[1]] if t[0] == "obj" else json.dumps(t)[:120], variant)]
    body = t[1][0][1]
    if form.get("word"):
        return ["%s is a word" % variant]
    got = fields_of(body, param, form["record"], types)
    if got is None:
        return ["%s carries %s" % (variant, json.dumps(body)[:120])]
    out = []
    for f, g in form["record"].items():
        a = ["get", param, camel(f)]
        v = got.pop(f, None)
        if v == a:
            continue
        if upgrade.optional(g) and (v is None or v in ABSENT) and absent(conds, a, camel(f) in (types or {}) and solid(types[camel(f)][0])):
            continue
        out.append("%s.%s is %s" % (variant, f, "not sent" if v is None or v in ABSENT else "given " + json.dumps(v)[:100]))
    for f, v in got.items():
        if v not in ABSENT[:1]:
            out.append("%s.%s is sent, the contract does not know it" % (variant, f))
    return out


def argument_types(fn, form):
    """(type of the first parameter as {name: [type, optional]}, problems)"""
    if not form["record"]:
        return {}, []
    if not fn["params"]:
        return {}, ["no arguments are taken"]
    alts, nul = parts(fn["params"][0][0])
    nul |= bool(fn["params"][0][1])
    if any("any" in x for x in alts):
        return {camel(f): [{"any": 1}, False] for f in form["record"]}, []
    if len(alts) != 1 or "object" not in alts[0]:
        return {}, ["the arguments are not one object"]
    o = alts[0]["object"]
    if nul and not all(upgrade.optional(g) for g in form["record"].values()):
        return o, ["the arguments can be left out, but not all of them are optional"]
    return o, compat({"object": o}, dict(form, record={camel(f): g for f, g in form["record"].items()}, default=[camel(x) for x in form.get("default", ())]), "arguments", True)


CTOR = lambda i: ["ctor", i]
ARG = lambda i: ["param", 0, i]


def each(c, fn):
    c.count("paths", len(fn["paths"]))
    return fn["paths"]


def callable_of(c, cls, name, where):
    m = cls["members"].get(name)
    if not c.need(m is not None, None, where, "there is no %s" % where):
        return None
    if not c.need("fn" in m, None, where, "cannot be analysed: %s" % json.dumps(m)[:200]):
        return None
    return m["fn"]


def promise(t):
    return t.get("promise", t) if isinstance(t, dict) else t


def queries(c, cls, k, address, forms, answers):
    """every query of the contract, asked once of the given contract"""
    for v, form in forms["choice"].items():
        w = "%s.%s" % (cls["class"], camel(v))
        fn = callable_of(c, cls, camel(v), w)
        if fn is None:
            continue
        types, bad = argument_types(fn, form)
        for p in each(c, fn):
            r = p.get("ret")
            if any(x[0] == "rejects" and x[2] for x in p["conds"]):
                if "throws" not in p:
                    bad.append("an answer is made up when the query fails")
                continue
            if r is None:
                bad.append("throws")
                continue
            if p["calls"] != [r] or r[0] != "call" or r[1] != ["get", CTOR(0), "queryContractSmart"] or len(r[2]) != 2:
                bad.append("does not answer what one smart query of the contract gives: %s" % json.dumps(r)[:160])
                continue
            if r[2][0] != CTOR(address):
                bad.append("asks %s instead of the contract it was made for" % json.dumps(r[2][0]))
            bad += message_problems(r[2][1], v, form, ARG(0), types, p["conds"])
        if v in answers:
            bad += compat(promise(fn["ret"]), answers[v], "answer", False)
            c.count("answers")
        c.count("queries")
        c.need(not bad, None, w, lambda: "%s: %s" % (fn["at"], "; ".join(list(dict.fromkeys(bad))[:4])))


def argument(t, i, conds, other):
    """the term is the i-th argument, or the default the library itself uses when it is left out"""
    return t == ARG(i) or t in other and absent(conds, ARG(i))


def executions(c, cls, forms):
    for v, form in forms["choice"].items():
        w = "%s.%s" % (cls["class"], camel(v))
        fn = callable_of(c, cls, camel(v), w)
        if fn is None:
            continue
        types, bad = argument_types(fn, form)
        k = 1 if form["record"] else 0
        for p in each(c, fn):
            r = p.get("ret")
            if any(x[0] == "rejects" and x[2] for x in p["conds"]):
                if "throws" not in p:
                    bad.append("a failed transaction is reported as done")
                continue
            if r is None:
                bad.append("throws")
                continue
            if p["calls"] != [r] or r[0] != "call" or r[1] != ["get", CTOR(0), "execute"] or not 4 <= len(r[2]) <= 6:
                bad.append("does not execute the contract exactly once: %s" % json.dumps(r)[:160])
                continue
            a = r[2] + [["undef"]] * (6 - len(r[2]))
            if a[0] != CTOR(1):
                bad.append("is sent from %s instead of the sender it was made for" % json.dumps(a[0]))
            if a[1] != CTOR(2):
                bad.append("is sent to %s instead of the contract it was made for" % json.dumps(a[1]))
            bad += message_problems(a[2], v, form, ARG(0), types, p["conds"])
            if not argument(a[3], k, p["conds"], [["lit", "auto"]]):
                bad.append("the fee is %s" % json.dumps(a[3])[:80])
            if not argument(a[4], k + 1, p["conds"], [["undef"], ["lit", ""]]):
                bad.append("the memo is %s" % json.dumps(a[4])[:80])
            if not argument(a[5], k + 2, p["conds"], [["undef"], ["arr", []]]):
                bad.append("the funds are %s" % json.dumps(a[5])[:80])
        c.count("executions")
        c.need(not bad, None, w, lambda: "%s: %s" % (fn["at"], "; ".join(list(dict.fromkeys(bad))[:4])))


def encoded(t):
    """the message inside its transport encoding"""
    j = None
    if t[0] == "call" and len(t[2]) == 1:
        f = t[1]
        if f == ["import", "@cosmjs/encoding", "toUtf8"] or f == ["get", ["global", "Buffer"], "from"] or \
                f[0] == "get" and f[2] == "encode" and f[1][:2] == ["new", ["global", "TextEncoder"]]:
            j = t[2][0]
    if j and j[0] == "call" and j[1] == ["get", ["global", "JSON"], "stringify"] and len(j[2]) == 1:
        return j[2][0]
    return None


def compositions(c, cls, forms):
    for v, form in forms["choice"].items():
        w = "%s.%s" % (cls["class"], camel(v))
        fn = callable_of(c, cls, camel(v), w)
        if fn is None:
            continue
        types, bad = argument_types(fn, form)
        k = 1 if form["record"] else 0
        for p in each(c, fn):
            r = p.get("ret")
            if r is None or r[0] != "obj" or r[2]:
                bad.append("does not give a message: %s" % json.dumps(r)[:120])
                continue
            o = dict((x[0], x[1]) for x in r[1])
            if o.get("typeUrl") != ["lit", "/cosmwasm.wasm.v1.MsgExecuteContract"] or set(o) != {"typeUrl", "value"}:
                bad.append("the message is not typed as an execution of a contract")
                continue
            x = o["value"]
            if x[0] == "call" and x[1][0] == "get" and x[1][2] == "fromPartial" and x[1][1][0] == "import" and x[1][1][2] == "MsgExecuteContract" and len(x[2]) == 1:
                x = x[2][0]
            if x[0] != "obj" or x[2]:
                bad.append("the value is %s" % json.dumps(x)[:120])
                continue
            o = dict((y[0], y[1]) for y in x[1])
            if o.get("sender") != CTOR(0):
                bad.append("the sender is %s" % json.dumps(o.get("sender"))[:80])
            if o.get("contract") != CTOR(1):
                bad.append("the contract is %s" % json.dumps(o.get("contract"))[:80])
            if not argument(o.get("funds", ["undef"]), k, p["conds"], [["undef"], ["arr", []]]):
                bad.append("the funds are %s" % json.dumps(o.get("funds"))[:80])
            m = encoded(o.get("msg", ["undef"]))
            if m is None:
                bad.append("the message is not encoded as JSON text: %s" % json.dumps(o.get("msg"))[:120])
            else:
                bad += message_problems(m, v, form, ARG(0), types, p["conds"])
        c.count("compositions")
        c.need(not bad, None, w, lambda: "%s: %s" % (fn["at"], "; ".join(list(dict.fromkeys(bad))[:4])))


# ---------------------------------------------------------------- query hooks
CLIENT, ARGS, OPTIONS = ["get", ARG(0), "client"], ["get", ARG(0), "args"], ["get", ARG(0), "options"]


def within(t, x):
    return t == x or isinstance(t, list) and any(within(y, x) for y in t)


def literals(t):
    if isinstance(t, list) and t[:1] == ["lit"]:
        return [t[1]]
    return [y for x in t for y in literals(x)] if isinstance(t, list) else []


def has(conds, kinds, x, v):
    return any(c[0] in kinds and c[1] == x and c[2] is v for c in conds)


def without(conds):
    """the path of a missing client"""
    return has(conds, ("nullish", "undef", "null"), CLIENT, True) or has(conds, ("truthy",), CLIENT, False)


def given(conds):
    return has(conds, ("truthy",), CLIENT, True) or has(conds, ("nullish",), CLIENT, False)


def consistent(conds):
    """the client is an object: present or absent, the same throughout"""
    return not (without(conds) and given(conds))


def hook_problems(key, fn, opts, v, form, conds):
    """one path of a hook: the key it caches under, how it asks, and when"""
    out = []
    if key[0] != "arr":
        return ["the key is %s" % json.dumps(key)[:100]]
    if not without(conds) and not within(key, ["get", CLIENT, "contractAddress"]):
        out.append("answers of different contracts are cached under one key")
    if form["record"] and not within(key, ARGS) and not all(within(key, ["get", ARGS, camel(f)]) for f in form["record"]):
        out.append("answers to different arguments are cached under one key")
    while fn[0] == "over":
        fn = fn[3]
    if fn[0] != "fn" or not isinstance(fn[2], dict):
        return out + ["what asks the query is %s" % json.dumps(fn)[:100]]
    for q in fn[2]["paths"]:
        if not consistent(q["conds"]):
            continue
        r = q.get("ret")
        if without(q["conds"]):
            if not ("throws" in q or r and r[0] == "call" and r[1] == ["get", ["global", "Promise"], "reject"]):
                out.append("answers %s without a client" % json.dumps(r)[:80])
            continue
        if any(x[0] == "rejects" and x[2] for x in q["conds"]):
            if "throws" not in q:
                out.append("an answer is made up when the query fails")
            continue
        if not r or r[0] != "call" or r[1] != ["get", CLIENT, camel(v)] or q["calls"] != [r]:
            out.append("asks %s instead of %s of its client" % (json.dumps(r and r[1])[:80], camel(v)))
            continue
        a = r[2]
        if not form["record"]:
            if any(x not in ABSENT for x in a):
                out.append("arguments are given")
            continue
        if len(a) != 1:
            out.append("%d arguments are given" % len(a))
            continue
        if a[0] == ARGS:
            continue
        got = fields_of(a[0], ARGS, None, {camel(f): 1 for f in form["record"]})
        if got is None:
            out.append("the arguments are %s" % json.dumps(a[0])[:100])
            continue
        for f, g in form["record"].items():
            x = got.pop(camel(f), None)
            if x != ["get", ARGS, camel(f)] and not (upgrade.optional(g) and (x is None or x in ABSENT) and absent(q["conds"] + conds, ["get", ARGS, camel(f)])):
                out.append("%s is %s" % (camel(f), "left out" if x is None else "given " + json.dumps(x)[:80]))
        if got:
            out.append("%s is not an argument" % sorted(got))
    return out + option_problems(opts, conds)


def option_problems(opts, conds):
    if opts is None or opts[0] != "obj":
        return ["the options are %s" % json.dumps(opts)[:80]]
    out = []
    o = dict((x[0], x[1]) for x in opts[1])
    absent_options = has(conds, ("nullish", "undef", "null"), OPTIONS, True) or has(conds, ("truthy",), OPTIONS, False)
    if OPTIONS not in opts[2] and not absent_options:
        out.append("the caller's options are dropped")
    e = o.get("enabled")
    own = ["get", OPTIONS, "enabled"]
    if without(conds):
        if e != ["lit", False]:
            out.append("the query is enabled without a client")
    elif absent_options or absent(conds, own):
        if e != ["lit", True]:
            out.append("the query is not enabled by default")
    elif e != own and e is not None and not (e == ["lit", True] and has(conds, ("truthy",), own, True) or e == ["lit", False] and has(conds, ("truthy",), own, False)):
        out.append("the caller's choice whether to ask is not followed")
    elif e is None:
        out.append("the caller's choice whether to ask is not followed without a client")
    return out


def hooks(c, M, k, forms):
    keys = {}
    fs = M.get(k[0].lower() + k[1:] + "Queries", {}).get("members", {})
    for v, form in forms["choice"].items():
        for where, one in (("%sQueries.%s" % (k, camel(v)), fs.get(camel(v))), ("use%s%sQuery" % (k, pascal(v)), M.get("use%s%sQuery" % (k, pascal(v))))):
            if not c.need(one is not None and "fn" in one, None, where, lambda: "there is no %s: %s" % (where, json.dumps(one)[:160])):
                continue
            fn, bad = one["fn"], []
            for p in each(c, fn):
                if not consistent(p["conds"]):
                    continue
                r = p.get("ret")
                if where.startswith("use"):
                    if r and r[0] == "call" and r[1][0] == "import" and r[1][2] == "useQuery":
                        a = r[2]
                        if len(a) == 1 and a[0][0] == "obj":
                            r = a[0]
                        elif len(a) == 3:
                            r = ["obj", [["queryKey", a[0]], ["queryFn", a[1]]] + (a[2][1] if a[2][0] == "obj" else []), a[2][2] if a[2][0] == "obj" else []]
                        else:
                            r = None
                    else:
                        r = None
                if not r or r[0] != "obj":
                    bad.append("is not a query: %s" % json.dumps(p.get("ret"))[:100])
                    continue
                o = dict((x[0], x[1]) for x in r[1])
                key = o.get("queryKey", ["undef"])
                while key[0] == "over":
                    key = key[3]
                bad += hook_problems(key, o.get("queryFn", ["undef"]), r, v, form, p["conds"])
                keys.setdefault(json.dumps(literals(key)), set()).add(v)
            c.count("hooks")
            c.need(not bad, None, where, lambda: "%s: %s" % (fn["at"], "; ".join(list(dict.fromkeys(bad))[:4])))
    for x, vs in keys.items():
        c.need(len(vs) == 1, None, "%s keys" % k, lambda: "answers to %s are cached under one key" % sorted(vs))
    ks = M.get(k[0].lower() + k[1:] + "QueryKeys", {}).get("members", {})
    seen = {}
    for v in forms["choice"]:
        w = "%sQueryKeys.%s" % (k, camel(v))
        one = ks.get(camel(v))
        if not c.need(one is not None and "fn" in one, None, w, "there is no %s" % w):
            continue
        bad = []
        for p in each(c, one["fn"]):
            r = p.get("ret", ["undef"])
            if not within(r, ARG(0)):
                bad.append("answers of different contracts are cached under one key")
            if not within(r, ARG(1)) and not absent(p["conds"], ARG(1)):
                bad.append("answers to different arguments are cached under one key")
            seen.setdefault(json.dumps(literals(r)), set()).add(v)
        c.count("keys")
        c.need(not bad, None, w, lambda: "%s: %s" % (one["fn"]["at"], "; ".join(bad[:3])))
    for x, vs in seen.items():
        c.need(len(vs) == 1, None, "%s keys" % k, lambda: "answers to %s are cached under one key" % sorted(vs))


def clients(c, p):
    crate = [k for k, v in ID.items() if v == c.prop][0]
    k = NAME[crate]
    r = package()
    own = [x for x in r["problems"] if x[0].startswith(k) or x[0].startswith("index") or not x[0]]
    c.need(not own, None, "types", lambda: "the package does not type-check: " + "; ".join("%s: %s" % (x[0], x[2]) for x in own[:3]))
    try:
        M = r["exports"]["contracts"]["members"][k]["members"]
    except KeyError:
        c.need(False, None, "exports", "contracts.%s is not exported" % k)
        return
    forms = upgrade.messages_of(p, crate)
    ans = {}
    said = upgrade.declared(p, crate)
    c.need(said is not None, None, "schema", "the list of answer schemas cannot be read")
    vs = {x.replace("_", ""): x for x in forms["query"]["choice"]}
    for v, t in (said or {}).items():
        ans[vs[v.lower()]] = upgrade.shape(p, crate, t)
    for n, do in (("QueryClient", lambda x: queries(c, x, k, 1, forms["query"], ans)),
                  ("Client", lambda x: (queries(c, x, k, 2, forms["query"], ans), executions(c, x, forms["execute"]))),
                  ("MessageComposer", lambda x: compositions(c, x, forms["execute"]))):
        x = M.get(k + n)
        if c.need(x is not None and "members" in x, None, k + n, lambda: "%s is not exported: %s" % (k + n, json.dumps(x)[:160])):
            do(x)
    hooks(c, M, k, forms["query"])
    ts = r["types"].get(k + ".types.ts", {})
    for n, e in (("ExecuteMsg", "execute"), ("QueryMsg", "query"), ("InstantiateMsg", "instantiate")):
        if n in ts:
            c.count("types")
            bad = compat(ts[n], forms[e], n, True)
            c.need(not bad, None, "%s.%s" % (k, n), lambda: "; ".join(bad[:4]))


for crate, pid in ID.items():
    program(pid, [crate], floors={"queries": 12, "executions": 5, "compositions": 5, "hooks": 12, "answers": 12, "types": 3},
            explain="the TypeScript package's syntax tree is evaluated on symbolic arguments with the TypeScript checker's types; every path of every client method, composer method and query hook is compared with the message and answer forms of the contract as compiled from this tree")(clients)
