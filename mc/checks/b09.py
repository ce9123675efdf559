from mc import domain, ref
from mc.rulecheck import RuleCheck, units_ilp, weighted_ilp, BOUNDS_ILP, BOUNDS_WEIGHTED_ILP


class B09(RuleCheck):
    """Maximin support method: greedily maximise the best achievable minimum support."""

    solver = True
    chunk = 10

    def units(self, tier):
        yield from units_ilp(tier)
        yield from weighted_ilp(tier)
        yield from domain.with_relabelings(domain.orbits(4, 3), ("rev",))

    def bounds(self, tier):
        return BOUNDS_ILP[tier] + BOUNDS_WEIGHTED_ILP

    def rule_ids(self, unit):
        return ("maximin-support",)

    def expected(self, rule_id, m, votes, k, ctx):
        model = ref.MaximinSupport(m, votes, k)
        finals, states, transitions = model.explore()
        ctx.count("states", states)
        ctx.count("transitions", transitions)
        return finals, {model.leftmost()}


CHECK = B09()
