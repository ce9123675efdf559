from mc import domain, ref
from mc.rulecheck import RuleCheck, units_cheap, units_ilp, weighted_cheap, weighted_ilp, BOUNDS_CHEAP, BOUNDS_ILP, BOUNDS_WEIGHTED_ILP


class A02(RuleCheck):
    """lex-CC returns exactly the committees maximising (covered >=1, >=2, ...) lexicographically."""

    solver = True
    chunk = 20

    def units(self, tier):
        for u in units_ilp(tier):
            yield u + ("ilp",)
        for u in weighted_ilp(tier):
            yield u + ("ilp",)
        for u in domain.with_relabelings(domain.orbits(4, 3)):
            yield u + ("ilp",)
        for u in units_cheap(tier):
            yield u + ("comb",)
        for u in weighted_cheap(tier):
            yield u + ("comb",)

    def bounds(self, tier):
        return {"gurobi": BOUNDS_ILP[tier] + BOUNDS_WEIGHTED_ILP, "brute-force": BOUNDS_CHEAP[tier]}

    def rule_ids(self, unit):
        return ("lexcc",)

    def algorithms(self, rule, unit):
        if unit[3] == "comb":
            return ["brute-force"]
        return [a for a in rule.algorithms if a not in ("brute-force", "mip-gurobi")]

    def expected(self, rule_id, m, votes, k, ctx):
        want = ref.lexcc(m, votes, k)
        ctx.count("states", len(ref.committees(m, k)))
        ctx.count("transitions", len(want))
        return want, want


CHECK = A02()
