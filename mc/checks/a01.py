from mc import domain, ref
from mc.rulecheck import RuleCheck, units_cheap, units_ilp, weighted_cheap, weighted_ilp, BOUNDS_CHEAP, BOUNDS_ILP, BOUNDS_WEIGHTED_ILP


class A01(RuleCheck):
    """Optimisation-based Thiele rules return exactly the committees of maximum Thiele score."""

    solver = True
    chunk = 10
    assumptions = ["the reference score functions in mc/ref.py state the intended definitions"]

    def units(self, tier):
        for u in units_ilp(tier):
            yield u + ("ilp",)
        for u in weighted_ilp(tier):
            yield u + ("ilp",)
        for u in units_cheap(tier):
            yield u + ("comb",)
        for u in weighted_cheap(tier):
            yield u + ("comb",)

    def bounds(self, tier):
        return {"solver algorithms": BOUNDS_ILP[tier] + BOUNDS_WEIGHTED_ILP, "combinatorial algorithms": BOUNDS_CHEAP[tier]}

    def ks(self, m):
        return (1, 2) if m > 8 else range(1, m + 1)

    def rule_ids(self, unit):
        if unit[3] == "ilp":
            return ("pav", "slav", "cc", "geom2")
        return ("pav", "slav", "cc", "geom2", "geom1.5", "geom10")

    def algorithms(self, rule, unit):
        comb = ("branch-and-bound", "brute-force")
        if unit[3] == "comb":
            return [a for a in rule.algorithms if a in comb]
        algs = [a for a in rule.algorithms if a not in comb and a != "mip-gurobi"]
        if unit[2] is not None and any(isinstance(w, str) for w in unit[2]):
            algs = [a for a in algs if a != "ortools-cp"]  # documented: integer weights only
        return algs

    def expected(self, rule_id, m, votes, k, ctx):
        want = ref.thiele(rule_id, m, votes, k)
        ctx.count("states", len(ref.committees(m, k)))
        ctx.count("transitions", len(want))
        return want, want


CHECK = A01()
