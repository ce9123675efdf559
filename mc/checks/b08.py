from mc import domain, ref
from mc.rulecheck import RuleCheck, units_cheap, weighted_cheap, BOUNDS_CHEAP, BOUNDS_WEIGHTED


class B08(RuleCheck):
    """E Pluribus Hugo: elimination by single divisible vote with least-popular elimination."""

    chunk = 40

    def units(self, tier):
        yield from units_cheap(tier)
        yield from weighted_cheap(tier)
        yield from domain.multiplicities(7, (0b0111111, 0b1000000, 0b0000011, 0b0000101), (0, 1, 2, 6))

    def bounds(self, tier):
        return BOUNDS_CHEAP[tier] + BOUNDS_WEIGHTED

    def rule_ids(self, unit):
        return ("eph",)

    def expected(self, rule_id, m, votes, k, ctx):
        want, rounds = ref.eph(m, votes, k)
        ctx.count("states", rounds)
        ctx.count("transitions", rounds)
        return want, want


CHECK = B08()
