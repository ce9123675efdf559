from mc import domain, ref
from mc.rulecheck import RuleCheck, units_cheap, weighted_cheap, BOUNDS_CHEAP, BOUNDS_WEIGHTED


class B03(RuleCheck):
    """Sequential Phragmén: minimal new maximum load, parallel universes."""

    chunk = 40

    def units(self, tier):
        yield from units_cheap(tier)
        yield from weighted_cheap(tier)

    def bounds(self, tier):
        return BOUNDS_CHEAP[tier] + BOUNDS_WEIGHTED

    def rule_ids(self, unit):
        return ("seqphragmen",)

    def expected(self, rule_id, m, votes, k, ctx):
        model = ref.SeqPhragmen(m, votes, k)
        finals, states, transitions = self.explore(model)
        ctx.count("states", states)
        ctx.count("transitions", transitions)
        return finals, {model.leftmost()}


CHECK = B03()
