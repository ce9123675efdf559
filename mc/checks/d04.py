import re

from mc import domain
from mc.checks.d01 import D01, captured, explains


POSITIVE = {
    "pareto": "is Pareto optimal",
    "core": "is in the core",
    "priceability": "is priceable",
    "stable-priceability": "is stable priceable",
}


def negative(text):
    return text.replace("is ", "is not ", 1).replace("satisfies", "does not satisfy", 1)


def verdict(name, W, q, holds, text):
    """Is the printed verdict the returned one, about this committee and this quota?"""
    text = " ".join(text.split())
    yes = POSITIVE.get(name, f"satisfies {name.upper()}")
    says = yes if holds else negative(yes)
    x = re.search(r"Committee \{([\d, ]*)\} (" + re.escape(says) + r")((?: \(for quota = [^)]*\))?)\.", text)
    if not x or frozenset(int(c) for c in x.group(1).split(",")) != W:
        return False
    return x.group(3) == ("" if q is None else f" (for quota = {q})")


class D04(D01):
    """Printed verdicts are the returned ones; the explanation of a negative verdict is true."""

    names = ("jr", "pjr", "ejr", "ejr+", "fjr", "core", "pareto", "priceability", "stable-priceability")
    chunk = 6

    def units(self, tier):
        for u in domain.orbits(3, 2):
            yield u + ("all", False)
        for u in domain.orbits(3, 3):
            yield u + ("all", False)
        for u in domain.orbits(4, 2):
            yield u + ("all", False)
        for u in domain.weighted(domain.orbits(3, 2), (1, 3, "1/2")):
            yield u + ("all", False)
        for u in domain.orbits(4, 3):
            yield u + ("cheap", True)
        for u in domain.with_relabelings(domain.orbits(4, 4)):
            yield u + ("cheap", False)
        for u in domain.weighted(domain.orbits(3, 3), (1, 2, "1/2")):
            yield u + ("cheap", False)
        for u in domain.staircase(6, 5, (1, 3)):
            yield u + ("cheap", False)
        for u in domain.staircase(5, 4, (1, 3)):
            yield u + ("all", False)
        if tier == "thorough":
            for u in domain.orbits(4, 3):
                yield u + ("all", True)
            for u in domain.orbits(5, 3):
                yield u + ("cheap", False)

    def bounds(self, tier):
        return (
            "both algorithms: up to renaming m=3 n<=3, m=4 n=2, weights {1,3,1/2}; combinatorial:"
            " m=4 n<=4, cyclic intervals m=6 n=5, weights {1,2,1/2} m=3 n=3" + ("; m=4 n=3 all, m=5 n=3" if tier == "thorough" else "")
            + "; every nonempty committee; for m=4 n=3 also other quotas"
        )

    def algorithms(self, unit, name):
        if name.endswith("priceability"):
            return [None] if unit[3] == "all" and unit[2] is None else []
        if name == "pareto":
            algs = ("gurobi", "brute-force")
        else:
            algs = D01.algorithms(self, unit, name)
        return [a for a in algs if a != "gurobi" or unit[3] == "all"]

    def one(self, ctx, properties, output_module, name, alg, profile, comm, kw, want, ref_args):
        m, votes, W, quota, q = ref_args
        if q is not None and (name == "pareto" or name.endswith("priceability")):
            return
        ctx.count("evaluations")
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        tag = f"{name}/{alg}"
        got, text = captured(output_module, lambda: properties.check(name, profile, comm, **kw))
        shown = " ".join(text.split())
        if not verdict(name, W, q, got, text):
            ctx.fail(tag, f"committee {sorted(W)} quota {q}: returned {got}, printed: {shown}")
        if got or want or name.endswith("priceability"):
            return  # a wrong verdict: decided by D01, D03 and D06
        try:
            ok = explains(name, m, votes, W, quota, text)
        except Exception as e:
            ok = False
            shown += f" [{type(e).__name__}: {e}]"
        if not ok:
            ctx.fail(tag, f"committee {sorted(W)} quota {q}: explanation does not hold: {shown}")


CHECK = D04()
