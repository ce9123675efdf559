from mc import domain, ref
from mc.rulecheck import RuleCheck, units_cheap, weighted_cheap, BOUNDS_CHEAP, BOUNDS_WEIGHTED


class A03(RuleCheck):
    """AV and SAV elect exactly the k-sets of candidates with the highest scores, exactly tied."""

    chunk = 60

    def units(self, tier):
        yield from units_cheap(tier)
        yield from weighted_cheap(tier)
        # ties of sums of unit fractions: candidates supported through ballots of different sizes
        yield from domain.multiplicities(7, (0b0111111, 0b1000000, 0b0000011, 0b0000101), (0, 1, 2, 6))
        yield from domain.multiplicities(7, (0b0000111, 0b1111000, 0b1000000, 0b0010001), (0, 1, 3, 4))
        yield from domain.multiplicities(6, (0b011111, 0b100000, 0b000111, 0b111000), (0, 1, 2, 3, 5))
        for u in domain.sequences(4, 3, empty=False):
            yield u
        for u in domain.orbits(4, 6, empty=False):
            m, masks, w = u
            yield u
            yield m, tuple(reversed(masks)), w
            yield m, masks[1::2] + masks[0::2], w

    def bounds(self, tier):
        return BOUNDS_CHEAP[tier] + BOUNDS_WEIGHTED + (
            "; ordered m=4 n=3; m=4 n=6 up to renaming under three voter orders; repeated-ballot"
            " families with ballot sizes 1..6"
        )

    def rule_ids(self, unit):
        if unit[0] == 7 and unit[2] is not None:  # weights in thirds: SAV-FLOAT-TIES
            return ("av",)
        return ("av", "sav")

    def expected(self, rule_id, m, votes, k, ctx):
        want = ref.separable(rule_id, m, votes, k)
        ctx.count("states", len(ref.committees(m, k)))
        ctx.count("transitions", len(want))
        return want, want


CHECK = A03()
