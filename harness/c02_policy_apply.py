"""Application of a combined metadata policy to the subject's metadata."""
import itertools

from sx.engine import Bag, call

OPS = ["value", "add", "default", "one_of", "subset_of", "superset_of", "essential"]
COVERS = ["applied", "refused", "absent", "scalar", "filled", "falsy"]
BOUNDS = {
    "quick": "one governed claim with any 0..4 of the 7 operators (operator lists of 1..2 values; "
             "fixed values and defaults also false or empty), "
             "subject's value absent / single string / false / list of 0..2 strings, plus an ungoverned "
             "claim and a second governed claim; strings known only up to equality",
    "thorough": "as quick with any 0..7 operators and value lists of 0..3 strings",
}
OUTSIDE = "one_of next to subset_of/superset_of (refused when policies are combined); superset_of on a single-valued claim (an operator for lists)"
ASSUMPTIONS = ["list values carry no duplicates (they are sets in JSON clothing)"]


def cases(tier):
    k = 4 if tier == "quick" else 7
    out = []
    for n in range(0, k + 1):
        for c in itertools.combinations(OPS, n):
            if "one_of" in c and ("subset_of" in c or "superset_of" in c):
                continue                 # such a combination never comes out of combining
            for shape in ("absent", "scalar", "list"):
                if shape == "scalar" and "superset_of" in c and "value" not in c:
                    continue
                out.append({"ops": list(c), "shape": shape, "max": 2 if tier == "quick" else 3,
                            "maxop": 2})
    return out


def slist(S, name, lo, hi):
    xs = [S.atom(f"{name}[{i}]") for i in range(S.size(name + ".len", lo, hi))]
    for i in range(len(xs)):
        for j in range(i):
            S.assume(S.not_(S.eq(xs[i], xs[j])))
    return xs


def seteq(S, a, b):
    return S.and_(S.subset(a, b), S.subset(b, a))


def reference(S, base, p):
    """what the federation rules make of the subject's value: ('ok', value) or ('refused', None);
    decides conditions by forking"""
    if "value" in p:
        return "ok", p["value"]
    if "add" in p:
        if base is None:
            base = list(p["add"])
        else:
            base = base if isinstance(base, list) else [base]
            base = base + [x for x in p["add"] if not S.member(x, base)]
    if "default" in p and base is None:
        base = p["default"]
    if "one_of" in p and base is not None:
        if isinstance(base, list) or not S.member(base, p["one_of"]):
            return "refused", None
    if "subset_of" in p and base is not None:
        if isinstance(base, list):
            base = [x for x in base if S.member(x, p["subset_of"])]
            if not base:
                return "refused", None
        elif not S.member(base, p["subset_of"]):
            return "refused", None
    if "superset_of" in p and base is not None:
        if not S.subset(p["superset_of"], base):
            return "refused", None
    if "essential" in p and base is None and p["essential"]:
        return "refused", None
    return "ok", base


def run(S, case):
    from fedservice.entity.function import PolicyError
    from fedservice.entity.function.policy import TrustChainPolicy

    p = {}
    for op in case["ops"]:
        if op == "essential":
            p[op] = S.bool("essential")
        elif op == "value" and len(case["ops"]) < 3 and S.flag("value.falsy"):
            p[op] = S.choose("value.is", [False, "", []])
            S.cover("falsy")
        elif op == "default" and len(case["ops"]) == 1 and S.flag("default.falsy"):
            p[op] = S.choose("default.is", [False, ""])
            S.cover("falsy")
        elif op in ("value", "default") and S.flag(op + ".single"):
            p[op] = S.atom(op)
        else:
            p[op] = slist(S, op, 1, case["maxop"])
    if case["shape"] == "absent":
        base = None
        S.cover("absent")
    elif case["shape"] == "scalar":
        base = S.atom("meta", ("",))
        S.cover("scalar")
        if not set(case["ops"]) - {"value", "default", "essential"} and S.flag("meta.false"):
            base = False
    else:
        base = slist(S, "meta", 0, case["max"])
    if "superset_of" in p and base is None and "add" not in p and "default" in p and \
            not isinstance(p["default"], list) and "value" not in p:
        S.assume(False)              # superset_of on a single value: outside

    metadata = {"free": ["as", "stated"], "d": ["d1", "d2"]}
    if base is not None:
        metadata["c"] = list(base) if isinstance(base, list) else base
    policy = {"metadata_policy": {"c": {k: (list(v) if isinstance(v, list) else v)
                                        for k, v in p.items()},
                                  "d": {"subset_of": ["d2", "d3"]},
                                  "e": {"default": "filled"}},
              "metadata": {"f": "asserted", "free": ["by", "superior"]}}
    order = case["ops"] if S.flag("reverse") is False else case["ops"][::-1]
    policy["metadata_policy"]["c"] = {k: policy["metadata_policy"]["c"][k] for k in order}
    st, r = call(TrustChainPolicy(lambda *a: None).apply_policy, metadata, policy)

    want, val = reference(S, base, p)
    if st == "raise":
        S.observe("out", "refused")
        S.cover("refused")
        S.check(isinstance(r, PolicyError), "refusal is a policy error", {"exc": repr(type(r))})
        S.check(want == "refused", "metadata that fulfills the policy is accepted",
                {"policy": p, "value": base})
        return
    got = r.get("c")
    S.observe("out", Bag(got) if isinstance(got, list) else got)
    S.check(want == "ok", "metadata that violates the policy is refused",
            {"policy": p, "value": base, "got": got})
    if want != "ok":
        return
    S.cover("applied")
    if val is None:
        S.check("c" not in r, "an absent claim nothing supplies stays absent")
    elif isinstance(val, list):
        S.check(isinstance(got, list) and seteq(S, got, val), "the governed claim gets exactly the "
                "values the policy leaves", {"policy": p, "value": base, "got": got, "want": val})
    elif isinstance(val, bool):
        S.check(got is val, "a false value is a value", {"policy": p, "value": base, "got": got, "want": val})
    else:
        S.check(not isinstance(got, (list, bool)) and S.eq(got, val),
                "a single valued claim keeps its one value",
                {"policy": p, "value": base, "got": got, "want": val})
    if base is None and val is not None:
        S.cover("filled")
    S.check(r.get("free") == ["as", "stated"], "an ungoverned claim the subject states is untouched")
    S.check(r.get("d") == ["d2"], "other governed claims get their own policy, not this one")
    S.check(r.get("e") == "filled", "a default fills a missing claim")
    S.check(r.get("f") == "asserted", "a value the superiors assert is added where the subject is silent")
    S.check(set(r) <= {"c", "free", "d", "e", "f"}, "no claim is invented")
