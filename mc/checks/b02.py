from mc import domain, ref
from mc.rulecheck import RuleCheck, units_cheap, weighted_cheap, BOUNDS_CHEAP, BOUNDS_WEIGHTED


class B02(RuleCheck):
    """Reverse sequential Thiele rules: removal transition system."""

    chunk = 40
    wide_ks = (9, 10, 11)

    def units(self, tier):
        yield from units_cheap(tier)
        yield from weighted_cheap(tier)

    def bounds(self, tier):
        return BOUNDS_CHEAP[tier] + BOUNDS_WEIGHTED

    def rule_ids(self, unit):
        return ("revseqpav", "revseqslav", "revseqcc", "revseqgeom2")

    def expected(self, rule_id, m, votes, k, ctx):
        model = ref.RevSeqThiele(rule_id[6:], m, votes, k)
        finals, states, transitions = self.explore(model)
        ctx.count("states", states)
        ctx.count("transitions", transitions)
        return finals, {model.leftmost()}


CHECK = B02()
