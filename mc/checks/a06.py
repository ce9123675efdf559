from mc import domain, ref
from mc.rulecheck import RuleCheck
from mc.checks.a05 import comb_units


class A06(RuleCheck):
    """Greedy Monroe: every round elects the candidate with most remaining supporters."""

    chunk = 40

    def units(self, tier):
        yield from comb_units(tier)
        yield from domain.with_relabelings(domain.orbits(5, 3))

    def bounds(self, tier):
        return (
            "ordered m<=3 n<=3; up to renaming m=4 n<=5, m=5 n=3, m=3 n=5 and n=7; party lists and"
            " repeated ballots; all k (n<k included); every choice of assigned voters in the model"
        )

    def rule_ids(self, unit):
        return ("greedy-monroe",)

    def expected(self, rule_id, m, votes, k, ctx):
        want, (st, tr) = ref.greedy_monroe(m, votes, k)
        ctx.count("states", st)
        ctx.count("transitions", tr)
        return want, want


CHECK = A06()
