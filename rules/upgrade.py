"""Upgrades keep what is stored: migration touches only the version, and the code reads its records
where, under which key and in which form the deployed contracts wrote them (published.json)."""
import json, os, re
from common import *
from terms import *
import storage
import wire
from registry import prop, program

HERE = os.path.dirname(os.path.abspath(__file__))
PUB = os.path.join(HERE, "published.json")
ID = {V1: "M18", RA: "R17", V2: "V18"}
WIRE = {V1: "M19", RA: "R18", V2: "V19"}
MESSAGES = ("instantiate", "execute", "sudo", "query", "migrate")
VERSION = "contract_info"


# ---------------------------------------------------------------- the stored form of a type
def split(s):
    out, d, cur = [], 0, ""
    for i, ch in enumerate(s):
        d += ch in "<([" and 1 or 0
        d -= (ch in ")]" or ch == ">" and s[i - 1] != "-") and 1 or 0
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def parse(s):
    """head, arguments of a printed type (lifetimes left out)"""
    s = s.strip()
    m = re.match(r"^&('\w+ )?(mut )?(.*)$", s)
    if m:
        return parse(m.group(3))
    if s.startswith("(") and s.endswith(")"):
        return "()", split(s[1:-1])
    m = re.match(r"^([^<]+)<(.*)>$", s)
    if m:
        return m.group(1), [x for x in split(m.group(2)) if not x.startswith("'")]
    return s, []


PLAIN = {"cosmwasm_std::Addr": "text", "std::string::String": "text", "alloc::string::String": "text", "str": "text"}


def shape(p, crate, s, env=(), depth=0):
    """the stored form of a type: records and choices of this program by their parts, others by name"""
    h, args = parse(s)
    env = dict(env)
    if not args and h in env:
        return env[h]
    args = [shape(p, crate, x, env, depth + 1) for x in args if x.split("::")[-1] != "Global"]
    if h in PLAIN:
        return PLAIN[h]
    h = h.split("::")[-1] if h.startswith(("std::", "core::", "alloc::")) else h
    a = p.adts.get("%s::%s" % (crate, h)) or p.adts.get(h)
    if a is None or depth > 8 or not (h.startswith("sg_marketplace") or "%s::%s" % (crate, h) in p.adts):
        return [h] + args if args else h
    params = []
    for v in a["vs"]:
        for f, t in v["fs"]:
            for x in re.findall(r"(?<![\w:])[A-Z]\w?(?![\w:])", t):
                if x not in params:
                    params.append(x)
    sub = dict(zip(params, args))
    name = "%s::%s" % (crate, h) if "%s::%s" % (crate, h) in p.adts else h
    home = crate if name != h else h.split("::")[0]
    ws = p.wire.get(name, ())
    out, inn = wire.writes(ws), wire.reads(ws)

    def form(fs, names, accepts):
        if names is None:
            names = [f for f, _ in fs]
        elif len(names) != len(fs):
            # some fields are left out
            fs = [(n, dict(map(tuple, fs)).get(n, "?")) for n in names]
        r = {n: shape(p, home, t, sub, depth + 1) for n, (_, t) in zip(names, fs)}
        r = {"record": r}
        if accepts is not None:
            got, need = accepts
            r["also"] = sorted(x for x in got if x not in names)
            r["unread"] = sorted(n for n, (f, _) in zip(names, fs) if n not in got and not f.isdigit())
            r["default"] = sorted(n for n, (f, t) in zip(names, fs) if n in got and n not in need)
        return {k: v for k, v in r.items() if v or k == "record"}
    if not a["enum"]:
        return form(a["vs"][0]["fs"], out if isinstance(out, list) else None, inn if inn and (inn[0] or inn[1]) else None)
    vs, k = {}, 0
    for i, v in enumerate(a["vs"]):
        w = out.get(i) if isinstance(out, dict) else None
        named = bool(v["fs"]) and not v["fs"][0][0].isdigit()
        acc = inn[1][k] if inn and named and k < len(inn[1]) else None
        k += named
        n = w[0] if w else v["n"]
        vs[n] = form(v["fs"], w[1] if w and named else None, acc)
        if w and w[2]:
            vs[n]["word"] = True
    r = {"choice": vs}
    if inn:
        lost = sorted(x for x in vs if x not in inn[0])
        if lost:
            r["unread"] = lost
        more = sorted(x for x in inn[0] if x not in vs)
        if more:
            r["also"] = more
    return r


def optional(t):
    return isinstance(t, list) and t[0] == "Option"


def reads(new, old, where):
    """problems reading data of the old form as the new one"""
    if isinstance(old, dict) and isinstance(new, dict) and ("record" in old) == ("record" in new):
        out = []
        if "record" in old:
            o, n = old["record"], new["record"]
            if old.get("word") != new.get("word"):
                return ["%s is read as %s, earlier versions wrote %s" % ((where,) + tuple("a bare word" if x.get("word") else "an object" for x in (new, old)))]
            for f in o:
                if f in n and f not in new.get("unread", ()):
                    out += reads(n[f], o[f], where + "." + f)
                elif f not in new.get("also", ()):
                    out.append("%s.%s of earlier versions is refused" % (where, f))
            renamed = any(f in new.get("also", ()) for f in o)
            for f in n:
                if f not in o and not optional(n[f]) and f not in new.get("default", ()) and not renamed:
                    out.append("%s.%s is missing in what earlier versions wrote" % (where, f))
        else:
            for v, o in old["choice"].items():
                n = new["choice"].get(v)
                if v in new.get("also", ()):
                    continue
                if n is None or v in new.get("unread", ()):
                    out.append("%s.%s of earlier versions is refused" % (where, v))
                else:
                    out += reads(n, o, where + "." + v)
        return out
    if isinstance(old, list) and isinstance(new, list) and len(old) == len(new) and old[0] == new[0]:
        return [y for a, b in zip(new[1:], old[1:]) for y in reads(a, b, where)]
    if old == new:
        return []
    if optional(new) and len(new) == 2:
        return reads(new[1], old, where)
    return ["%s is read as %s, earlier versions wrote %s" % (where, text(new), text(old))]


def answers(new, old, where):
    """problems a client of the old form has with the new one (fields and choices may be added)"""
    if isinstance(old, dict) and isinstance(new, dict) and ("record" in old) == ("record" in new):
        out = []
        if "record" in old:
            if old.get("word") != new.get("word"):
                return ["%s is written as %s, clients expect %s" % ((where,) + tuple("a bare word" if x.get("word") else "an object" for x in (new, old)))]
            for f, o in old["record"].items():
                if f not in new["record"]:
                    if not optional(o) and f not in old.get("default", ()):
                        out.append("%s.%s is gone" % (where, f))
                    elif optional(o):
                        out.append("%s.%s is never given" % (where, f))
                else:
                    out += answers(new["record"][f], o, where + "." + f)
        else:
            for v, o in old["choice"].items():
                if v not in new["choice"]:
                    out.append("%s.%s is gone" % (where, v))
                else:
                    out += answers(new["choice"][v], o, where + "." + v)
        return out
    if isinstance(old, list) and isinstance(new, list) and len(old) == len(new) and old[0] == new[0]:
        return [y for a, b in zip(new[1:], old[1:]) for y in answers(a, b, where)]
    if old == new:
        return []
    if optional(old) and len(old) == 2:
        return answers(new, old[1], where)
    return ["%s is written as %s, clients expect %s" % (where, text(new), text(old))]


def text(x):
    return json.dumps(x)[:120]


def key_text(ks):
    return sorted(show(storage.canon(k)) for k in ks or [])


def extract(p, crate):
    """{namespace: what is stored there}"""
    lay = storage.layout(p, crate)
    out = []
    fns = {fn.name: fn for fn in p.fns.values() if fn.crate == crate and fn.body["argc"] == 0}
    for name, kind, ns in lay.items:
        h, args = parse(str(fns[name].ret()[0]))
        out.append((ns, {"kind": kind, "types": [shape(p, crate, x) for x in args]}, name))
    for m in lay.maps:
        h, args = parse(str(fns[m.fn].ret()[0]))
        out.append((m.ns, {"kind": "IndexedMap", "types": [shape(p, crate, x) for x in args[:2]],
                           "indexes": {n or f: key_text(ks) for f, (n, pk, k, ks) in m.indexes.items()}}, m.fn))
    return lay, out


def stored_form(c, p):
    crate = [k for k, v in ID.items() if v == c.prop][0]
    pub = json.load(open(PUB))[crate]
    lay, got = extract(p, crate)
    for x in lay.problems:
        c.need(False, None, "layout/" + x.split(":")[0], "the storage layout cannot be read: " + x)
    # every place has one owner
    owner = {}
    places = [(ns, name) for ns, _, name in got] + [(n, "%s.%s" % (m.fn, f)) for m in lay.maps for f, (n, pk, k, ks) in m.indexes.items()] + [(VERSION, "cw2")]
    for ns, name in places:
        c.need(ns is not None and ns not in owner, None, "place/" + name, lambda: "%s and %s are both stored under %r" % (name, owner.get(ns), ns))
        owner.setdefault(ns, name)
        c.count("places")
    # indexes follow their map
    for m in lay.maps:
        for f, (n, pk, k, ks) in m.indexes.items():
            c.need(pk == m.ns, None, "index/%s.%s/of" % (m.ns, f), lambda: "the index %s of %s looks its records up in %r" % (f, m.ns, pk))
            c.need(f in m.listed, None, "index/%s.%s/kept" % (m.ns, f), lambda: "the index %s of %s is not kept up to date (not listed in get_indexes)" % (f, m.ns))
            c.count("indexes")
    # records are where and as earlier versions stored them
    cur = {ns: x for ns, x, _ in got}
    for ns, old in pub["stored"].items():
        new = cur.get(ns)
        c.count("stored")
        if not c.need(new is not None, None, "stored/" + ns, "what earlier versions stored under %r is no longer read" % ns):
            continue
        c.need(new["kind"] == old["kind"], None, "stored/%s/kind" % ns, lambda: "%r holds a %s, earlier versions kept a %s there" % (ns, new["kind"], old["kind"]))
        ks, vs = (old["types"][:-1], old["types"][-1:]) if old["kind"] in ("Map", "IndexedMap") else ([], old["types"])
        nks, nvs = (new["types"][:-1], new["types"][-1:]) if new["kind"] in ("Map", "IndexedMap") else ([], new["types"])
        c.need(ks == nks, None, "stored/%s/key" % ns, lambda: "%r is keyed by %s, earlier versions by %s" % (ns, text(nks), text(ks)))
        bad = [x for a, b in zip(nvs, vs) for x in reads(a, b, ns)]
        c.need(not bad and len(vs) == len(nvs), None, "stored/%s/form" % ns, lambda: "; ".join(bad[:4]))
        for ix, k in old.get("indexes", {}).items():
            nk = new.get("indexes", {}).get(ix)
            c.need(nk == k, None, "stored/%s/index/%s" % (ns, ix), lambda: "the index entries %s of records stored earlier are by %s, new ones by %s" % (ix, k, nk))
        for ix in new.get("indexes", {}):
            c.need(ix in old.get("indexes", {}), None, "stored/%s/index/%s" % (ns, ix), "records stored earlier have no entry in the index %s" % ix)


def versioned(v, name):
    """the name and a version of this contract"""
    return v.k == "tup" and v.a[0] is S(name) and v.a[1].k == "str" and re.match(r"^\d+\.\d+\.\d+", v.a[1].a[0]) is not None


def founding(c, ps, name):
    """instantiation records the name and version upgrades go by, once"""
    for p in ps:
        if p.ok is not True:
            continue
        w = [x for q in p.all() for x in q.eff if x[0] in ("save", "remove") and x[1] is S(VERSION)]
        c.count("instantiations")
        c.need(len(w) == 1 and w[0][0] == "save", p, "founded", "instantiation does not record the contract's name and version")
        for x in w:
            c.need(x[0] == "save" and versioned(x[3], name), p, "version", lambda: "instantiation records %s as the version" % effshow(x)[:160])


def parsed(p):
    """what is read as a version"""
    return [t for t in p.st.d if t.k == "call" and re.search(r"(parse|from_str)\b", t.a[0].split("::")[-1])]


def migration(c, u, ps):
    """success writes at most the version of this contract and sends nothing"""
    name = json.load(open(PUB))[u.crate]["name"]
    if u.entry.endswith("instantiate"):
        return founding(c, ps, name)
    for p in ps:
        if p.ok is None:
            continue
        if p.ok is False:
            if u.crate == V1:
                refusal(c, p, name)
            else:
                c.need(False, p, "refused", "an upgrade of marketplace v2 or the auction house is refused")
            continue
        c.count("migrations")
        c.need(not messages(p), p, "messages", "migration sends messages")
        saves = 0
        for q, x in [(q, x) for q in p.all() for x in q.eff]:
            c.need(q is p, p, "loop", "migration walks over stored records")
            if x[0] not in ("save", "remove"):
                continue
            ok = x[0] == "save" and x[1].k == "str" and x[1].a[0] == VERSION
            if not c.need(ok, p, "writes", lambda: "migration changes what is stored: " + effshow(x)[:200]):
                continue
            saves += 1
            v = x[3]
            c.need(versioned(v, name), p, "version", lambda: "migration records %s as the version" % show(v)[:160])
        c.need(saves <= 1, p, "once", "the version is recorded several times")
        if u.crate == V1:
            st = parsed(p)
            was = [t for t in st if any(z.k == "stored" for z in subterms(t))]
            new = [t for t in st if t not in was]
            c.need(len(was) == 1 and len(new) == 1, p, "compares", "an upgrade is accepted without comparing the versions")
            if len(was) == 1 and len(new) == 1:
                a, b = fld(as_(was[0], "Ok"), "0"), fld(as_(new[0], "Ok"), "0")
                c.need(p.rel(a, b) <= frozenset("<" if saves else "="), p, "newer", "the version is %s when the stored one is not %s" % (("recorded", "older") if saves else ("kept", "the same")))
                s = [z for z in subterms(was[0]) if z.k == "stored"][0]
                c.need(p.same(fld(s, "contract"), S(name)), p, "same-contract", "another contract is upgraded to this one")
            c.count("recorded" if saves else "kept")
        else:
            c.need(saves == 1, p, "recorded", "the version is not recorded")
            c.count("recorded")


def refusal(c, p, name):
    """the marketplace refuses only other contracts and older code"""
    st = parsed(p)
    why = any(k.k == "succeeds" and not v for k, v in p.st.b.items())
    why = why or any(f[0] == "is" and f[1] == "Err" or f[0] != "is" and "Ok" in f[1] for t, f in p.st.d.items() if t in st)
    was = [t for t in st if any(z.k == "stored" for z in subterms(t))]
    new = [t for t in st if t not in was]
    if not why and len(was) == 1 and len(new) == 1:
        why = p.rel(fld(as_(was[0], "Ok"), "0"), fld(as_(new[0], "Ok"), "0")) <= frozenset(">")
    if not why:
        for (a, b), s in p.st.o.items():
            if S(name) in (a, b) and "=" not in s:
                why = True
    c.count("refusals")
    c.need(why, p, "refused", "an upgrade is refused although it is the same contract and no newer version")


# ---------------------------------------------------------------- messages and answers
def messages_of(p, crate):
    """{entry point: form of the message it takes}"""
    import registry
    out = {}
    for c, path, _, _ in registry.ENTRIES:
        n = path.split("::")[-1]
        fn = p.find(c, path)
        if c == crate and n in MESSAGES and fn is not None:
            out[n] = shape(p, crate, fn.body["locals"][fn.body["argc"]][0])
    return out


def written(p, crate):
    """{type: form} of what the contract serialises anywhere; None in it: a type that is not known there"""
    out = {}
    for fn in p.fns.values():
        if fn.crate not in (crate, "sg_marketplace_common"):
            continue
        for b in fn.body["blocks"]:
            f = b["t"].get("f") if b["t"]["k"] == "call" else None
            if isinstance(f, dict) and re.search(r"::(to_json_binary|to_json_vec|to_json_string|to_binary|to_vec|wasm_execute)$", str(f.get("name"))):
                t = f.get("args", "[]")[1:-1]
                h = parse(t)[0]
                if "::" in h and ("%s::%s" % (fn.crate, h) in p.adts or h in p.adts):
                    out[h.split("::")[-1]] = shape(p, fn.crate, t)
                elif re.match(r"^(impl |[A-Z]\w?$)", h):
                    out[None] = t
    return out


def interface(c, p):
    crate = [k for k, v in WIRE.items() if v == c.prop][0]
    pub = json.load(open(PUB))[crate]
    cur = messages_of(p, crate)
    for e, old in pub["messages"].items():
        if not c.need(e in cur, None, "message/" + e, "there is no %s entry point" % e):
            continue
        c.count("messages")
        if isinstance(old, dict) and isinstance(cur[e], dict) and "choice" in old and "choice" in cur[e]:
            for v in old["choice"]:
                one = lambda x: dict(x, choice={k: y for k, y in x["choice"].items() if k == v})
                bad = reads(one(cur[e]), one(old), e)
                c.count("message-forms")
                c.need(not bad, None, "message/%s/%s" % (e, v), lambda: "; ".join(bad[:4]))
        else:
            bad = reads(cur[e], old, e)
            c.need(not bad, None, "message/" + e, lambda: "; ".join(bad[:4]))
    now = written(p, crate)
    for n, old in pub["outgoing"].items():
        c.count("outgoing")
        bad = answers(now[n], old, n) if n in now else ["%s is not sent any more" % n]
        if bad and (None in now or any(not answers(x, old, n) for k, x in now.items() if k is not None)):
            bad = []
        c.need(not bad, None, "outgoing/" + n, lambda: "; ".join(bad[:4]))


def declared(p, crate):
    """{query variant: the type its published schema names}, from the compiled schema list"""
    name = [n for n in p.wire if n.startswith(crate + "::") and any(w["trait"] == "QueryResponses" for w in p.wire[n])]
    if len(name) != 1 or name[0] not in p.adts:
        return None
    ts = [c[2][0] for w in p.wire[name[0]] if w["trait"] == "QueryResponses" for c in w["calls"] if c[0] == "into_root_schema_for"]
    vs = [v["n"] for v in p.adts[name[0]]["vs"]]
    return dict(zip(vs, ts)) if len(ts) == len(vs) else None


def answered(c, u, ps):
    pub = json.load(open(PUB))[u.crate]["answers"]
    said = declared(u.engine.p, u.crate)
    c.need(said is not None, None, "schema", "the list of answer schemas cannot be read")
    name = [k for k in pub if k.replace("_", "") == (u.variant or "").lower()]
    for p in ps:
        if p.ok is not True:
            continue
        t = answer_type(p)
        if t is None or not name:
            continue
        bad = answers(shape(u.engine.p, u.crate, t), pub[name[0]], name[0])
        c.count("answers")
        c.need(not bad, p, "answer/" + name[0], lambda: "; ".join(bad[:4]))
        if said and u.variant in said:
            off = answers(shape(u.engine.p, u.crate, t), shape(u.engine.p, u.crate, said[u.variant]), name[0])
            c.count("declared")
            c.need(not off, p, "schema/" + name[0], lambda: "the schema promises %s: %s" % (said[u.variant], "; ".join(off[:4])))


def answer_type(p):
    r = p.ret
    if r.k == "adt" and r.a[1] == "Ok":
        r = fld(r, "0")
    if r.k != "json" or len(r.a) < 2 or not r.a[1] or re.match(r"^(impl |&?[A-Z]\w?$)", r.a[1]):
        return None
    return r.a[1]


def S(x):
    return mk("str", x)


NOTE = "storage layout, key and record forms extracted from the compiled program against the published ones; every path of migrate"
for crate, pid in ID.items():
    floors = {V1: {"places": 13, "indexes": 12, "stored": 8, "migrations": 2, "recorded": 1, "kept": 1, "refusals": 1, "instantiations": 1},
              RA: {"places": 7, "indexes": 2, "stored": 4, "migrations": 1, "recorded": 1, "instantiations": 1},
              V2: {"places": 13, "indexes": 6, "stored": 7, "migrations": 1, "recorded": 1, "instantiations": 1}}[crate]
    prop(pid, [crate], ["migrate", "instantiate"], None, floors=floors)(migration)
    program(pid, [crate])(stored_form)
    prop(WIRE[crate], [crate], ["query"], None, floors={"answers": 2, "declared": 2})(answered)
    program(WIRE[crate], [crate], floors={"messages": 3, "message-forms": 6, "outgoing": 1})(interface)
