"""The command-line tool: what its commands store, print, ask and send, for all arguments, stored settings and answers."""
import itertools, json, os, subprocess, tempfile
import build as mirbuild
import clients
from registry import program
from common import RA

TOOL = "typescript/packages/marketplace-cli/src"
CACHE = {}
COMMANDS = ["commands/keys/generate.ts", "commands/keys/set.ts", "commands/keys/list.ts", "commands/keys/get-balance.ts",
            "commands/reserve-auction/schedule-end-auction.ts"]


def tool():
    if "r" not in CACHE:
        with tempfile.TemporaryDirectory() as d:
            out = os.path.join(d, "r.json")
            r = subprocess.run(["node", os.path.join(clients.HERE, "..", "engine", "ts", "clients.js"), clients.TS, os.path.join(mirbuild.REPO, TOOL), out,
                                "tool", "@stargazezone/marketplace-types=" + os.path.join(mirbuild.REPO, clients.PACKAGE)],
                               capture_output=True, text=True, timeout=600)
            if r.returncode:
                raise RuntimeError("the command-line tool cannot be analysed: " + r.stderr[-1500:])
            CACHE["r"] = json.load(open(out))
    return CACHE["r"]


def runs(c, key):
    """(command, its paths)"""
    for m in COMMANDS:
        x = tool()["modules"].get(m, {}).get("default", {})
        f = x.get("members", {}).get("run", {}).get("fn")
        if not f or "paths" not in f:
            c.need(False, None, "%s|%s" % (key, m), "the command %s cannot be followed: %s" % (m, str(x.get("members", {}).get("run", x))[:300]))
            continue
        c.count("commands")
        yield m, f["paths"]


# ---------------------------------------------------------------- terms
lit = lambda v: ["lit", v]
get = lambda t, k: ["get", t, k]
WALLET = ["import", "@cosmjs/proto-signing", "DirectSecp256k1HdWallet"]
STARS = ["obj", [["prefix", lit("stars")]], []]
READS = {"getBalance", "getAllBalances", "getChainId", "queryContractSmart", "queryContractRaw", "getHeight", "getAccount", "getSequence", "getTx", "getBlock",
         "getContract", "disconnect", "simulate"}
LATER = {"generate", "fromMnemonic", "getAccounts", "connect", "connectWithSigner", "getBalance", "queryContractSmart", "execute", "parse", "getChainId"}


def is_get(t, k):
    return isinstance(t, list) and t[:1] == ["get"] and t[2] == k


def meth(t):
    """(receiver, method, arguments) of a method call"""
    if isinstance(t, list) and t[:1] == ["call"] and isinstance(t[1], list) and t[1][:1] == ["get"]:
        return t[1][1], t[1][2], t[2]
    return None, None, []


def is_store(t):
    return isinstance(t, list) and t[:1] == ["new"] and t[1][:2] == ["import", "conf"]


def stored(t, k):
    o, m, a = meth(t)
    return m == "get" and is_store(o) and bool(a) and a[0] == lit(k)


def parsed(t, kind, name):
    """an argument or option of the command"""
    return is_get(t, name) and is_get(t[1], kind) and t[1][1][:1] == ["call"] and t[1][1][1] == ["inherited", "parse"]


def subterms(t):
    if isinstance(t, list):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)
    elif isinstance(t, dict):
        for x in t.values():
            yield from subterms(x)


def wallet_of(t):
    """the phrase (or "fresh") of a wallet with addresses of this chain"""
    o, m, a = meth(t)
    if o == WALLET and len(a) == 2 and a[1] == STARS:
        if m == "generate":
            return "fresh" if a[0] == lit(24) else None
        if m == "fromMnemonic":
            return a[0]
    return None


def account_of(t):
    """the wallet whose first address this is"""
    if is_get(t, "address") and (is_get(t[1], "0") or t[1][:1] == ["index"] and t[1][2] == lit(0)):
        o, m, a = meth(t[1][1])
        if m == "getAccounts" and not a and wallet_of(o) is not None:
            return o
    return None


def known(p, kind, t):
    """a condition of the path on a term"""
    for k, x, v in p["conds"]:
        if x == t:
            if k == kind:
                return v
            if kind == "truthy" and k in ("nullish", "undef", "null") and v:
                return False
    return None


def given(p, t):
    """is an option or a stored value there? None: the path leaves it open"""
    for k, x, v in p["conds"]:
        if x == t:
            if k == "truthy":
                return v
            if k in ("nullish", "undef"):
                return not v
    return None


def taken(p, name):
    """is there a phrase under this name?"""
    for k, x, v in p["conds"]:
        if x[:1] == ["index"] and stored(x[1], "mnemonics") and x[2] == name:
            if k == "truthy":
                return v
            if k in ("nullish", "undef"):
                return not v
        if k == "truthy" and (x[:2] == ["bin", "in"] and x[2] == name and stored(x[3], "mnemonics") or
                              x[:1] == ["call"] and meth(x)[1] in ("hasOwnProperty", "has", "hasOwn") and name in x[2] and
                              any(stored(y, "mnemonics") for y in subterms(x))):
            return v
    return None


def writes(p):
    return [x for x in p["calls"] if is_store(meth(x)[0]) and meth(x)[1] not in ("get", "has")]


def printing(f):
    """a callee that prints"""
    s = f
    while isinstance(s, list) and (meth(s)[1] == "bind" or s[:1] == ["get"] and s[2] in ("bind",)):
        s = meth(s)[0] if s[:1] == ["call"] else s[1]
    return s == ["inherited", "log"] or s[:1] == ["get"] and s[1][:1] == ["global"] and s[1][1] in ("console", "process")


def printed(p):
    return [x[2] for x in p["calls"] if x[:1] == ["call"] and printing(x[1])]


def nested(t):
    """the calls of the functions a term contains"""
    for x in subterms(t):
        if x[:1] == ["fn"] and isinstance(x[2], dict):
            for q in x[2].get("paths", []):
                yield q


def every(p):
    """all calls of a path, those of functions it passes on included"""
    out = list(p["calls"])
    for q in nested(p["calls"]):
        out += q["calls"]
    return out


def prompt(p):
    """a promise that is used before it is awaited, or never awaited"""
    calls = p["calls"]
    for i, x in enumerate(calls):
        if x[:1] == ["started"]:
            # an asynchronous function of the tool: nothing is sent before it is done, and it is waited for
            for y in calls[i + 1:]:
                if y == ["settled", x[1]]:
                    break
                if send(y):
                    return x
            else:
                return x
        if x[:1] != ["call"]:
            continue
        m = meth(x)[1] or (x[1][1] if x[1][:1] == ["inherited"] else None)
        if m not in LATER:
            continue
        for y in calls[i + 1:]:
            if y == ["await", x]:
                break
            if send(y) or any(z == x for z in subterms(y)):
                return x
        else:
            return x
    return None


# ---------------------------------------------------------------- secrets
PURE = {"lodash", "Object", "Promise", "Array", "String", "JSON"}


def secret(t, ps=()):
    """does the value reveal a phrase?"""
    if isinstance(t, dict):
        return False
    if not isinstance(t, list) or not t:
        return False
    if any(t == x for x in ps) or stored(t, "mnemonics"):
        return True
    if is_get(t, "0") and any(x == ["pair", t[1]] for x in ps):
        return False  # the name in a (name, phrase) pair
    if any(x == ["pair", t] for x in ps):
        return True
    o, m, a = meth(t)
    if m in ("getAccounts", "connectWithSigner", "keys", "size", "isObject", "hasOwnProperty", "isEmpty"):
        return False
    if o == WALLET:
        return True
    if m in ("map", "mapValues", "entries") and any(isinstance(x, list) and x[:1] == ["fn"] for x in a):
        src = [x for x in [o] + a if isinstance(x, list) and x[:1] != ["fn"]]
        f = next(x for x in a if isinstance(x, list) and x[:1] == ["fn"])
        if any(secret(x, ps) for x in src):
            return not isinstance(f[2], dict) or any(secret(q.get("ret", []), phrases(f, src)) for q in f[2].get("paths", []))
    if isinstance(t[0], list):
        return any(secret(x, ps) for x in t)
    if t[0] == "obj" and len(t) == 3:
        return any(secret(x[1], ps) for x in t[1]) or secret(t[2], ps)
    if t[0] == "fn":
        return isinstance(t[2], dict) and any(secret(q.get("ret", []), ps) for q in t[2].get("paths", []))
    if t[0] in ("lit", "import", "global", "class"):
        return False
    return any(secret(x, ps) for x in t[1:] if isinstance(x, list))


def params_of(f, i):
    """the i-th parameter as it appears in the function's own paths"""
    return [x for x in subterms(f[2]) if x[:1] == ["param"] and x[2] == i]


def phrases(f, src):
    """what is a phrase in a function that is given the elements of the stored map, or its (name, phrase) pairs"""
    pairs = any(meth(x)[1] in ("entries", "toPairs") for x in src)
    return [["pair", x] for x in params_of(f, 0)] if pairs else params_of(f, 0)


def leaks(p, ps=()):
    """calls of the path that are given a phrase and are not the wallet's, the store's or a pure function's"""
    for x in p["calls"]:
        if x[:1] != ["call"]:
            continue
        o, m, _ = meth(x)
        a = x[2]
        for f in [y for y in a if isinstance(y, list) and y[:1] == ["fn"] and isinstance(y[2], dict)]:
            src = [y for y in [o] + a if isinstance(y, list) and y[:1] != ["fn"]]
            for q in f[2].get("paths", []):
                yield from leaks(q, phrases(f, src) if any(secret(y, ps) for y in src) else ps)
        root = (o or x[1])[1] if isinstance(o or x[1], list) and (o or x[1])[:1] in (["import"], ["global"]) else None
        if root in PURE or o == WALLET or m == "connectWithSigner" or is_store(o) and m == "set" and a[:1] == [lit("mnemonics")]:
            continue
        if any(secret(y, ps) for y in a):
            yield x
    if secret(p.get("throws", []), ps):
        yield p["throws"]


# ---------------------------------------------------------------- T03 keys
def with_phrase(p, v, name):
    """the stored map with one phrase added under the name; the phrase"""
    if stored(v, "mnemonics"):
        at = next(i for i, x in enumerate(p["calls"]) if meth(x)[1] == "set" and len(x[2]) == 2 and x[2][1] == v)
        ch = [x for x in p["calls"][:at] if x[0] in ("assign", "delete") and x[1] == v]
        return ch[0][3] if len(ch) == 1 and ch[0][0] == "assign" and ch[0][2] == name else None
    if v[:1] == ["obj"] and not v[1] and len(v[2]) == 2 and stored(v[2][0], "mnemonics") and v[2][1][:2] == ["entry", name]:
        return v[2][1][2]
    return None


def contains(t, x):
    return any(y == x for y in subterms(t))


def balance(t, who=None, denom=None):
    """a term that asks for an account's balance"""
    o, m, a = meth(t)
    return m == "getBalance" and len(a) == 2 and (who is None or a[0] == who) and (denom is None or a[1] == denom)


T03_FLOORS = {"commands": 5, "paths": 15, "stores": 2, "prints": 6}


@program("T03", [RA], floors=T03_FLOORS)
def t03(c, prog):
    for m, ps in runs(c, "T03"):
        short = m.split("/")[-1][:-3]
        for p in ps:
            c.count("paths")
            need = lambda ok, what, msg: c.need(ok, None, "%s|%s" % (short, what), "%s: %s; path: %s" % (m, msg, show(p)))
            ws = writes(p)
            done = "throws" not in p
            bad = next(leaks(p), None)
            need(bad is None, "secret", "a phrase leaves the tool: %s" % str(bad)[:300])
            need(prompt(p) is None, "await", "a result is used before it is there: %s" % str(prompt(p))[:200])
            if short not in ("generate", "set"):
                need(not ws, "changes", "the command changes what is stored: %s" % str(ws)[:300])
            if not done:
                need(not ws, "half", "the command fails after it changed what is stored")
            if short == "generate":
                generate(c, p, ws, done, need)
            elif short == "set":
                choose(c, p, ws, done, need)
            elif short == "list" and done:
                listing(c, p, need)
            elif short == "get-balance" and done:
                one_balance(c, p, need)


def show(p):
    return "; ".join("%s%s(%s)" % ("" if v else "not ", k, brief(t)) for k, t, v in p["conds"])[:600]


def brief(t):
    if isinstance(t, list) and t:
        if t[0] == "get":
            return brief(t[1]) + "." + str(t[2])
        if t[0] == "lit":
            return repr(t[1])
        if t[0] == "index":
            return "%s[%s]" % (brief(t[1]), brief(t[2]))
        if t[0] in ("call", "new"):
            return "%s(%s)" % (brief(t[1]), ", ".join(brief(x) for x in t[2]))
        if t[0] in ("import", "inherited", "global"):
            return str(t[-1])
        if t[0] == "fn":
            return "function at " + t[2].get("at", "") if isinstance(t[2], dict) else "function"
        return "%s(%s)" % (t[0], ", ".join(brief(x) for x in t[1:]))
    return str(t)


def name_of(p):
    for x in subterms(p["calls"]):
        if parsed(x, "flags", "name"):
            return x
    return None


def generate(c, p, ws, done, need):
    name = name_of(p)
    if not done:
        need(True, "refuses", "")
        return
    if not need(name is not None, "name", "the command does not look at the name it is given"):
        return
    need(taken(p, name) is False, "taken", "a phrase is stored although the name may be in use")
    maps = [x for x in ws if x[2][:1] == [lit("mnemonics")]]
    dflt = [x for x in ws if x[2][:1] == [lit("default-mnemonic")]]
    need(len(maps) + len(dflt) == len(ws) and all(meth(x)[1] == "set" for x in ws), "other", "something other than the phrase and the default is changed")
    if need(len(maps) == 1 and len(maps[0][2]) == 2, "stored", "the phrase is not stored once"):
        c.count("stores")
        ph = with_phrase(p, maps[0][2][1], name)
        need(ph is not None, "map", "what is stored is not the phrases there were and the new one under its name")
        w = ph[1] if ph is not None and is_get(ph, "mnemonic") else None
        need(w is not None and wallet_of(w) == "fresh", "fresh", "the phrase is not that of a fresh wallet of this chain with 24 words")
        need(w is not None and any(any(account_of(y) == w for y in subterms(a)) and contains(a, name) for a in printed(p)), "shown",
             "the new account's address is not shown with its name")
        c.count("prints")
    have = next((v if k == "truthy" else not v for k, x, v in p["conds"] if stored(x, "default-mnemonic") and k in ("truthy", "nullish", "undef")), None)
    if need(have is not None, "default-known", "the default is left or set without a look at whether there is one"):
        need(not dflt if have else len(dflt) == 1 and dflt[0][2][1:] == [name], "default", "the first key becomes the default, a later one does not")


def choose(c, p, ws, done, need):
    if not done:
        return
    name = name_of(p)
    if not need(name is not None, "name", "the command does not look at the name it is given"):
        return
    need(taken(p, name) is True, "unknown", "the default becomes a name that may have no key")
    need(len(ws) == 1 and meth(ws[0])[1] == "set" and ws[0][2] == [lit("default-mnemonic"), name], "default", "not just the default is set to the name")
    c.count("stores")
    ok = False
    for a in printed(p):
        for y in subterms(a):
            w = account_of(y)
            ph = wallet_of(w) if w is not None else None
            ok |= isinstance(ph, list) and ph[:1] == ["index"] and stored(ph[1], "mnemonics") and ph[2] == name
    need(ok, "shown", "the address of the account that is now the default is not shown")
    c.count("prints")


def listing(c, p, need):
    """every stored key, with its name, its address and that address's balance"""
    ok = False
    for a in printed(p):
        for t in subterms(a):
            o, m, args = meth(t)
            if m not in ("map",):
                continue
            fs = [x for x in args if isinstance(x, list) and x[:1] == ["fn"] and isinstance(x[2], dict)]
            src = [x for x in [o] + args if stored(x, "mnemonics") or meth(x)[1] in ("entries", "toPairs") and any(stored(y, "mnemonics") for y in x[2])]
            if not fs or not src:
                continue
            if stored(src[0], "mnemonics"):
                ph, key = params_of(fs[0], 0), params_of(fs[0], 1)
            else:
                ph, key = [get(x, "1") for x in params_of(fs[0], 0)], [get(x, "0") for x in params_of(fs[0], 0)]
            qs = [q for q in fs[0][2]["paths"] if "throws" not in q]
            ok |= bool(qs) and all(entry(q, ph, key) for q in qs)
            for q in qs:
                need(prompt(q) is None, "await", "a result is used before it is there")
                need(not scaled(q["ret"]), "unit", "an amount is scaled but shown with the denom it has unscaled")
    need(ok, "listed", "not every stored key is listed with its name, address and balance")
    c.count("prints")


def entry(q, ph, key):
    r = q["ret"]
    if not any(contains(r, k) for k in key):
        return False
    for y in subterms(r):
        w = account_of(y)
        if w is not None and wallet_of(w) in ph:
            return any(is_get(z, "amount") and balance(z[1], y, lit("ustars")) for z in subterms(r))
    return False


def scaled(r):
    return any(t[:1] == ["bin"] and t[1] in ("/", "*", "-") and any(is_get(z, "amount") for z in subterms(t)) for t in subterms(r))


def one_balance(c, p, need):
    addr = next((x for x in subterms(p["calls"]) if parsed(x, "args", "address")), None)
    flag = next((x for x in subterms([p["calls"], [x for _, x, _ in p["conds"]]]) if parsed(x, "flags", "denom")), None)
    if not need(addr is not None, "address", "the command does not look at the address it is given"):
        return
    g = given(p, flag) if flag is not None else None
    denom = flag if g else lit("ustars")
    asked = [x for x in every(p) if meth(x)[1] == "getBalance"]
    need(g is not None, "denom-known", "the denom the balance is asked for is not looked at")
    need(len(asked) == 1 and balance(asked[0], addr, denom), "asked", "what is asked is not the balance of the given address in the given denom (ustars if none)")
    # shown as it is: the amount, in the denom it is an amount of
    ok = any(contains(a, addr) and any(is_get(z, "amount") and z[1] in asked for z in subterms(a)) for a in printed(p))
    need(ok, "shown", "the balance of the address is not shown")
    need(not any(scaled(a) for a in printed(p)), "unit", "the amount is scaled but shown with the denom it has unscaled")
    c.count("prints")


# ---------------------------------------------------------------- T04 connections and auctions that end together
CLIENTS = {"CosmWasmClient": ("connect",), "SigningCosmWasmClient": ("connectWithSigner",)}


def connection(t):
    """(node, wallet or None) of a client"""
    o, m, a = meth(t)
    if isinstance(o, list) and o[:2] == ["import", "@cosmjs/cosmwasm-stargate"] and m in CLIENTS.get(o[2], ()):
        return a[0] if a else None, a[1] if m == "connectWithSigner" and len(a) > 1 else None
    return None


def send(t):
    """a call that can change something on the chain: (wallet, method, arguments)"""
    o, m, a = meth(t)
    if o is None:
        return None
    k = connection(o)
    if k is not None and m not in READS:
        return k[1], m, a
    return None


def web(p, uri):
    """the path has established that the address is one of the web"""
    for k, x, v in p["conds"]:
        if k != "truthy" or v is not True:
            continue
        if x[:1] == ["eq"] and any(y == lit("http:") or y == lit("https:") for y in x[1:]) and \
                any(is_get(y, "protocol") and y[1] == ["new", ["global", "URL"], [uri]] for y in x[1:]):
            return True
    return False


def seconds(t):
    """the instant whose whole seconds since 1970 this is: a term, or "now" """
    o, m, a = meth(t)
    if o == ["global", "Math"] and m in ("floor", "trunc") and len(a) == 1 and a[0][:2] == ["bin", "/"] and a[0][3] == lit(1000):
        return millis(a[0][2])
    return None


def millis(t):
    o, m, a = meth(t)
    if m in ("getTime", "valueOf") and not a and o[:1] == ["new"] and o[1] == ["global", "Date"]:
        return instant(o)
    if o == ["global", "Date"] and m == "now":
        return "now"
    if o == ["global", "Date"] and m == "parse":
        return instant(["new", o, a])
    return None


def instant(d):
    if not d[2]:
        return "now"
    o, m, a = meth(d[2][0])
    if m == "toISOString" and o[:1] == ["new"] and o[1] == ["global", "Date"]:
        return instant(o)
    return d[2][0]


def lasting(t, end):
    """the whole seconds from now to the end"""
    if t[:2] == ["bin", "-"]:
        return seconds(t[2]) == end and seconds(t[3]) == "now"
    o, m, a = meth(t)
    if o == ["global", "Math"] and m in ("floor", "trunc") and len(a) == 1 and a[0][:2] == ["bin", "/"] and a[0][3] == lit(1000) and a[0][2][:2] == ["bin", "-"]:
        return millis(a[0][2][2]) == end and millis(a[0][2][3]) == "now"
    return False


def exact_time(p, end):
    return any(k == "truthy" and v is True and x[:1] == ["eq"] and any(y == end for y in x[1:]) and
               any(meth(y)[1] == "toISOString" and meth(y)[0] == ["new", ["global", "Date"], [end]] for y in x[1:]) for k, x, v in p["conds"])


def fields(t):
    """the fields of an object literal that are there"""
    if t[:1] != ["obj"] or t[2]:
        return None
    return {k: v for k, v in t[1] if v != ["undef"]}


def flat(t):
    return t if not isinstance(t, list) else t


T04_FLOORS = {"commands": 5, "paths": 30, "connections": 20, "transactions": 3, "skips": 1}
RESERVE = {"amount": lit("1000000"), "denom": lit("ustars")}


@program("T04", [RA], floors=T04_FLOORS)
def t04(c, prog):
    lib = tool()["modules"].get("lib/cosmos/cosmWasmClient.ts", {})
    allp = [(m, p) for m, ps in runs(c, "T04") for p in ps]
    for n, x in lib.items():
        if isinstance(x, dict) and "paths" in x.get("fn", {}):
            allp += [("lib/cosmos/cosmWasmClient.ts " + n, p) for p in x["fn"]["paths"]]
    for m, p in allp:
        c.count("paths")
        key = m.split("/")[-1]
        need = lambda ok, what, msg: c.need(ok, None, "%s|%s" % (key, what), "%s: %s; path: %s" % (m, msg, show(p)))
        for x in every(p):
            o, meth_, a = meth(x)
            if isinstance(o, list) and o[:2] == ["import", "@cosmjs/cosmwasm-stargate"]:
                k = connection(x)
                c.count("connections")
                need(k is not None and stored(k[0], "node"), "node", "a connection to something other than the configured node")
                need(k is None or web(p, k[0]), "endpoint", "a connection to what is not established to be a web address")
        need(prompt(p) is None, "await", "a result is used before it is there: %s" % str(prompt(p))[:200])
        ss = [x for x in every(p) if send(x)]
        if "schedule-end-auction" in m:
            schedule(c, p, need)
        else:
            need(not ss, "sends", "the command sends a transaction: %s" % brief(ss)[:300])


def arg_of(p, name):
    return next((x for x in subterms([p["calls"], [x for _, x, _ in p["conds"]]]) if parsed(x, "args", name)), None)


def signer_ok(p, w, who):
    """the wallet is that of the account of this name"""
    ph = wallet_of(w) if w is not None else None
    if not isinstance(ph, list) or ph[:1] != ["index"] or not stored(ph[1], "mnemonics"):
        return False
    return ph[2] == who or given(p, who) is False and stored(ph[2], "default-mnemonic")


def schedule(c, p, need):
    args = {n: arg_of(p, n) for n in ("contract-address", "collection-address", "end-time", "creator", "bidder")}
    end = args["end-time"]
    dry = next((x for x in subterms([x for _, x, _ in p["conds"]]) if parsed(x, "flags", "dry-run")), None)
    ids = next((x for x in subterms([p["calls"], [x for _, x, _ in p["conds"]]]) if parsed(x, "flags", "token-ids")), None)
    top = [x for x in p["calls"] if send(x)]
    need(len([x for x in every(p) if send(x)]) == len(top), "inside", "a transaction is sent where its order is not determined")
    valid = end is not None and exact_time(p, end)
    if top:
        need(valid, "time", "transactions are sent although the end time may not be a point in time")
        need(dry is not None and given(p, dry) is False, "dry", "transactions are sent in a dry run")
    if "throws" in p:
        need(not top, "half", "the command gives up after it sent a transaction")
        return
    need(valid, "time-refused", "the command goes on with an end time that may not be a point in time")
    if dry is not None and given(p, dry):
        return
    if ids is None or not any(k == "some" and x == ids for k, x, v in p["conds"]):
        return need(False, "tokens", "the tokens the command is given are not gone through")
    if not known(p, "some", ids):
        return need(not top, "none", "transactions are sent without a token")
    marks = [x for x in p["calls"] if x[0] in ("loop", "next", "leave") and x[1] == ids]
    need([x[0] for x in marks] == ["loop", "next"], "all", "the tokens the command is given are not all gone through")
    el = ["elem", ids]
    creator = None
    exists, cond = None, None
    for k, x, v in p["conds"]:
        if k in ("truthy", "nullish", "undef") and any(y == el for y in subterms(x)):
            exists, cond = (v if k == "truthy" else not v), x
    if not need(cond is not None, "look", "a token is put up for auction without a look at the auctions there are"):
        return
    who = auctioned(cond, el, args["collection-address"], args["contract-address"])
    need(who is not None and signer_ok(p, who, args["creator"]), "exists", "what decides whether a token is skipped is not whether the creator has an auction of this token of this collection: %s" % brief(cond)[:300])
    if exists:
        c.count("skips")
        return need(not top, "again", "transactions are sent for a token that is auctioned already")
    i, j = p["calls"].index(marks[0]) if marks else 0, p["calls"].index(marks[-1]) if marks else 0
    need(all(i < n < j for n, x in enumerate(p["calls"]) if send(x)), "outside", "a transaction that is not one for a token of the list")
    c.count("transactions", len(top))
    if not need(len(top) == 3, "steps", "not the three transactions (approve, create the auction, bid) are sent for a token but %d" % len(top)):
        return
    coll, con = args["collection-address"], args["contract-address"]
    cfg = [x for x in subterms(p["calls"]) if meth(x)[1] == "queryContractSmart" and meth(x)[2] == [con, ["obj", [["config", ["obj", [], []]]], []]]]
    want = [("approve", args["creator"], coll, {"spender": con, "token_id": el}, None),
            ("create_auction", args["creator"], con, {"collection": coll, "token_id": el, "duration": None, "reserve_price": None}, "fee"),
            ("place_bid", args["bidder"], con, {"collection": coll, "token_id": el}, "reserve")]
    for t, (op, acc, to, body, funds) in zip(top, want):
        w, m, a = send(t)
        lab = "step-" + op
        if not need(m == "execute" and len(a) >= 4, lab, "not an execution"):
            continue
        need(signer_ok(p, w, acc), lab + "-signer", "it is not signed by the %s's account" % ("bidder" if op == "place_bid" else "creator"))
        need(account_of(a[0]) == w, lab + "-sender", "its sender is not the account that signs it")
        need(a[1] == to, lab + "-to", "it does not go to the %s" % ("collection" if op == "approve" else "auction contract"))
        f = fields(a[2])
        b = fields(f[op]) if f and list(f) == [op] else None
        if need(b is not None and set(b) == set(body), lab + "-message", "it is not the message %s with %s: %s" % (op, sorted(body), brief(a[2])[:300])):
            for k, v in body.items():
                ok = b[k] == v if v is not None else lasting(b[k], end) if k == "duration" else fields(b[k]) == RESERVE
                need(ok, "%s-%s" % (lab, k), "its %s is %s" % (k, brief(b[k])[:300]))
        fs = a[5] if len(a) > 5 and a[5] != ["undef"] else ["arr", []]
        if funds is None:
            ok = fs == ["arr", []]
        elif funds == "fee":
            ok = fs[:1] == ["arr"] and len(fs[1]) == 1 and is_get(fs[1][0], "create_auction_fee") and fs[1][0][1] in cfg
        else:
            ok = fs[:1] == ["arr"] and len(fs[1]) == 1 and fields(fs[1][0]) == RESERVE
        need(ok, lab + "-funds", "the funds sent with it are %s" % brief(fs)[:300])


def auctioned(t, el, coll, con):
    """t: some auction the contract reports for the seller is of this token of this collection; the seller's wallet"""
    o, m, a = meth(t)
    if m not in ("some", "find"):
        return None
    fs = [x for x in a if isinstance(x, list) and (x[:1] == ["fn"] or x[:1] == ["obj"])]
    src = [x for x in [o] + a if meth(x)[1] == "queryContractSmart"]
    if len(fs) != 1 or len(src) != 1:
        return None
    q = src[0][2]
    f = fields(q[1]) if len(q) == 2 and q[0] == con else None
    b = fields(f["auctions_by_seller"]) if f and list(f) == ["auctions_by_seller"] else None
    w = account_of(b["seller"]) if b and "seller" in b else None
    if w is None:
        return None
    f = fs[0]
    if f[0] == "obj":
        return w if fields(f) == {"token_id": el, "collection": coll} else None
    if not isinstance(f[2], dict) or "paths" not in f[2]:
        return None
    ps = [x for x in params_of(f, 0)]
    if not ps:
        return None
    atoms = [("token_id", el), ("collection", coll)]

    def atom(x):
        if x[:1] == ["eq"]:
            for y, z in ((x[1], x[2]), (x[2], x[1])):
                for n, (k, v) in enumerate(atoms):
                    if is_get(y, k) and y[1] in ps and z == v:
                        return n
        return None

    def value(x, env):
        if x[:1] == ["lit"]:
            return bool(x[1])
        if x[:1] == ["not"]:
            v = value(x[1], env)
            return None if v is None else not v
        n = atom(x)
        return env[n] if n is not None else None
    for env in itertools.product((True, False), repeat=2):
        got = []
        for q in f[2]["paths"]:
            vs = [(value(x, env), v) for k, x, v in q["conds"] if k == "truthy"]
            if len(vs) != len(q["conds"]) or any(a is None for a, v in vs) or "ret" not in q:
                return None
            if all(a == v for a, v in vs):
                got.append(value(q["ret"], env))
        if got != [all(env)]:
            return None
    return w
