from mc import domain, ref
from mc.rulecheck import RuleCheck, units_cheap, weighted_cheap, BOUNDS_CHEAP, BOUNDS_WEIGHTED, fmt


class B06(RuleCheck):
    """Equal Shares completed by Phragmén, AV, or by incrementing the budget."""

    chunk = 30

    def units(self, tier):
        yield from units_cheap(tier)
        yield from weighted_cheap(tier)

    def bounds(self, tier):
        return BOUNDS_CHEAP[tier] + BOUNDS_WEIGHTED

    def rule_ids(self, unit):
        return (
            "equal-shares",
            "equal-shares-with-av-completion",
            "equal-shares-with-increment-completion",
        )

    def expected(self, rule_id, m, votes, k, ctx):
        if rule_id == "equal-shares":
            model = ref.EqualSharesPhragmen(m, votes, k)
            finals, states, transitions = self.explore(model)
            ctx.count("states", states)
            ctx.count("transitions", transitions)
            return finals, {model.leftmost()}
        if rule_id == "equal-shares-with-av-completion":
            finals, first, states, transitions = ref.equal_shares_av(m, votes, k)
            ctx.count("states", states)
            ctx.count("transitions", transitions)
            return finals, first
        res = ref.equal_shares_increment(m, votes, k)
        if res is None:
            few = ref._few_approved(m, votes, k)
            return few, few
        ctx.count("states", res[1] - k + 1)
        ctx.count("transitions", res[1] - k + 1)
        return {res[0]}, {res[0]}


CHECK = B06()
