from mc import domain, ref
from mc.rulecheck import RuleCheck, units_cheap, units_ilp, weighted_ilp, BOUNDS_CHEAP, BOUNDS_ILP


class A04(RuleCheck):
    """Minimax AV / lexicographic Minimax AV minimise the (sorted) Hamming distances."""

    solver = True
    chunk = 20

    def units(self, tier):
        for u in units_ilp(tier):
            yield u + ("ilp",)
        for u in weighted_ilp(tier):
            yield u + ("mm",)
        for u in units_cheap(tier):
            yield u + ("comb",)

    def bounds(self, tier):
        return {"solver algorithms": BOUNDS_ILP[tier], "brute-force": BOUNDS_CHEAP[tier]}

    def rule_ids(self, unit):
        return ("minimaxav",) if unit[3] == "mm" else ("minimaxav", "lexminimaxav")

    def algorithms(self, rule, unit):
        if unit[3] == "comb":
            return ["brute-force"]
        return [a for a in rule.algorithms if a != "mip-gurobi" and (unit[3] == "mm" or a != "brute-force")]

    def expected(self, rule_id, m, votes, k, ctx):
        fct = ref.minimaxav if rule_id == "minimaxav" else ref.lexminimaxav
        want = fct(m, votes, k)
        ctx.count("states", len(ref.committees(m, k)))
        ctx.count("transitions", len(want))
        return want, want


CHECK = A04()
