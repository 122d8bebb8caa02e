"""JSON forms: what the derived serializers write and the derived deserializers read, from their compiled bodies."""
import re


def lits(c):
    return [x.get("str", x.get("int")) for x in c[1] if x.get("k") == "const" and ("str" in x or "int" in x)]


def num(fn, i):
    """number of the i-th last nested item in a path"""
    return [int(x) for x in re.findall(r"\{impl#(\d+)\}", fn)][i]


def writes(ws):
    """struct: [names]; enum: {index: (name, [names], written as a bare word?)}; None: not derived"""
    fs = [w for w in ws if w["trait"] == "Serialize" and w["fn"].endswith("::serialize")]
    if len(fs) != 1:
        return None
    names, variants, cur = [], {}, None
    for c in fs[0]["calls"]:
        n, a = c[0], lits(c)
        if n in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_tuple_variant", "serialize_struct_variant"):
            cur = []
            a = [x for x in a if isinstance(x, str)][-1:] + [x for x in a if isinstance(x, int)][:1]
            variants[a[1]] = (a[0], cur, n == "serialize_unit_variant")
        elif n == "serialize_field" and a and isinstance(a[-1], str):
            (names if cur is None else cur).append(a[-1])
        elif n in ("serialize_map", "flat_map", "serialize_newtype_struct", "serialize_unit_struct", "collect_map"):
            names.append("<%s>" % n)
    return variants if variants else names


def reads(ws):
    """struct: (names, required); enum: ([variant names], [(names, required) of the variants with fields])"""
    fs = [w for w in ws if w["trait"] == "Deserialize"]
    if not fs:
        return None

    def strs(w, call):
        return [x for c in w["calls"] if c[0] == call for x in lits(c) if isinstance(x, str)]
    top = [w for w in fs if w["fn"].endswith("::visit_str") and "visit_enum" not in w["fn"]]
    names = strs(top[0], "eq") if top else []
    maps = [w for w in fs if w["fn"].endswith("::visit_map") and "visit_enum" not in w["fn"]]
    inner = sorted([w for w in fs if "visit_enum" in w["fn"] and w["fn"].endswith("::visit_str")], key=lambda w: num(w["fn"], -1))
    imaps = sorted([w for w in fs if "visit_enum" in w["fn"] and w["fn"].endswith("::visit_map")], key=lambda w: num(w["fn"], -1))
    if maps or not (inner or top):
        return (names, [x for w in maps for x in strs(w, "missing_field")])
    return (names, [(strs(a, "eq"), strs(b, "missing_field")) for a, b in zip(inner, imaps) if strs(a, "eq")])
