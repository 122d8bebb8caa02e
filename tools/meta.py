import sys; sys.modules.setdefault("meta", sys.modules["__main__"])
"""The properties and the manifest, in one place: python3 tools/meta.py rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, R, V, C = "contracts/marketplace/src/", "contracts/reserve-auction/src/", "contracts/stargaze-marketplace-v2/src/", "packages/sg-marketplace-common/src/"
PROPS = []


def mech(*xs):
    return [{"name": n, "where": w} for n, w in xs]


def P(id, title, statement, over, text, why, files, mechanism, state=None, technique=None, note=None, observe=None):
    a = {"files": files, "mechanism": mech(*mechanism)}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a,
                      technique=technique or TECH, note=note or NOTE))


TECH = "path-sensitive interprocedural dataflow over the compiled MIR"
NOTE = ("every path of the listed entry points is enumerated from the compiled program (loops by a generic iteration) and the rule is "
        "decided on each; arithmetic is symbolic and platform calls (bank, storage, querier) follow their documented contracts")
from props_v1 import *  # noqa
from props_ra import *  # noqa
try:
    from props_v2 import *  # noqa
except ImportError:
    pass
try:
    from props_x import *  # noqa
except ImportError:
    NA = []
from props_t import *  # noqa


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    with open(os.path.join(HERE, "properties.jsonl"), "a") as f:
        for p in NA:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note", "reason")}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 engine/build.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                     "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]} for p in PROPS],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(line), s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(PROPS), "claimed", len(NA), "not applicable")


if __name__ == "__main__":
    main()
