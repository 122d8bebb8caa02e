"""Which rule decides which property on which entry points."""
import json, os
from common import Ctx, V1, RA, V2, COMMON

D3, D4 = ["deps", "env", "msg"], ["deps", "env", "info", "msg"]
ENTRIES = [
    (V1, "execute::instantiate", D4, None),
    (V1, "execute::execute", D4, "msg::ExecuteMsg"),
    (V1, "sudo::sudo", D3, "msg::SudoMsg"),
    (V1, "query::query", D3, "msg::QueryMsg"),
    (V1, "execute::reply", D3, None),
    (V1, "execute::migrate", D3, None),
    (RA, "instantiate::instantiate", D4, None),
    (RA, "execute::execute", D4, "msg::ExecuteMsg"),
    (RA, "sudo::sudo", D3, "msg::SudoMsg"),
    (RA, "query::query", D3, "msg::QueryMsg"),
    (RA, "migrate::migrate", D3, None),
    (V2, "instantiate::instantiate", D4, None),
    (V2, "execute::execute", D4, "msg::ExecuteMsg"),
    (V2, "query::query", D3, "msg::QueryMsg"),
    (V2, "migrate::migrate", D3, None),
]

RULES, GLOBAL, FLOORS, LEVEL, EXPLAIN, CRATES, SCOPE = {}, {}, {}, {}, {}, {}, {}
REFUSE = set()  # properties that need every refusing outcome of summarised functions
EVENTS = set()  # properties that also look at the events of a response


def prop(pid, crates, entries=None, variants=None, floors=None, explain=None, level="other", ev=False, refuse=False):
    """declare a property; entries: names of entry functions, variants: message variants (None: all)"""
    CRATES[pid] = crates
    if ev:
        EVENTS.add(pid)
    if refuse:
        REFUSE.add(pid)
    SCOPE.setdefault(pid, []).append((crates, entries, variants))
    FLOORS.setdefault(pid, {}).update(floors or {})
    LEVEL[pid] = level
    if explain:
        EXPLAIN[pid] = explain

    def deco(f):
        RULES.setdefault(pid, []).append(f)
        return f
    return deco


def program(pid, crates, floors=None, explain=None, level="other"):
    CRATES.setdefault(pid, crates)
    FLOORS.setdefault(pid, {}).update(floors or {})
    LEVEL[pid] = level
    if explain:
        EXPLAIN[pid] = explain

    def deco(f):
        GLOBAL.setdefault(pid, []).append(f)
        return f
    return deco


def mode(pid):
    """properties of one mode share an analysis of a unit"""
    return pid in EVENTS, pid in REFUSE


def wants(pid, u):
    for crates, entries, variants in SCOPE.get(pid, ()):
        if u.crate in crates and (entries is None or u.entry.split("::")[-1] in entries) and \
                (variants is None or u.variant in variants or u.variant is None):
            return True
    return False


def weight(u):
    if u.crate == V2 and u.entry.endswith("execute"):
        return {"SetAsk": 9, "SellNft": 9, "AcceptBid": 6, "AcceptCollectionBid": 6, "UpdateAsk": 7}.get(u.variant, 4)
    return 1 if u.crate == RA else 0


def thorough_heavy(u):
    # v2 sales have tens of thousands of alternatives: they stay summarised and multiplied out
    return 24 if u.crate == V2 else 0


def known(here, pid):
    """known findings: exact violation keys (fixed entries suppress nothing)"""
    p = os.path.join(here, "known-findings.json")
    out = {}
    if os.path.exists(p):
        for x in json.load(open(p)).get("findings", []):
            if x["property"] == pid:
                out[x["key"]] = x["what"]
    return out


import v1  # noqa: E402,F401
import ra  # noqa: E402,F401
import v2  # noqa: E402,F401
import query  # noqa: E402,F401
import traps  # noqa: E402,F401
import clients  # noqa: E402,F401
import cli  # noqa: E402,F401
import announce  # noqa: E402,F401
import upgrade  # noqa: E402,F401
import refuse  # noqa: E402,F401
