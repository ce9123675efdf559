from mc import domain, ref
from mc.rulecheck import RuleCheck, units_ilp, BOUNDS_ILP


def comb_units(tier):
    yield from domain.seq_m(3, 3)
    yield from domain.with_relabelings(domain.orbits(4, 3))
    yield from domain.with_relabelings(domain.orbits(4, 4), ("rev",))
    yield from domain.orbits(3, 5)
    yield from domain.orbits(3, 7, empty=False)
    yield from domain.orbits(4, 5, empty=False)
    yield from domain.partylists(3, 2, 3, 5)
    yield from domain.multiplicities(4, (0b0011, 0b0110, 0b1000), (0, 2, 3))
    if tier == "thorough":
        yield from domain.orbits(4, 6, empty=False)
        yield from domain.orbits(5, 4)


class A05(RuleCheck):
    """Monroe's rule returns exactly the committees with the best balanced assignment."""

    solver = True
    chunk = 10

    def units(self, tier):
        for u in units_ilp(tier):
            if u[0] <= 6:
                yield u + ("ilp",)
        for u in domain.orbits(3, 4):
            yield u + ("ilp",)
        for u in comb_units(tier):
            yield u + ("comb",)

    def bounds(self, tier):
        return {
            "solver algorithms": BOUNDS_ILP[tier] + "; m=3 n=4 up to renaming",
            "brute-force": "ordered m<=3 n<=3; up to renaming m=4 n<=5, m=3 n=5 and n=7; party lists"
            " and repeated ballots with n not divisible by k; n<k included"
            + ("; m=4 n=6, m=5 n=4" if tier == "thorough" else ""),
        }

    def rule_ids(self, unit):
        return ("monroe",)

    def algorithms(self, rule, unit):
        if unit[3] == "comb":
            return ["brute-force"]
        return [a for a in rule.algorithms if a not in ("brute-force", "mip-gurobi")]

    def expected(self, rule_id, m, votes, k, ctx):
        want = ref.monroe(m, votes, k)
        ctx.count("states", len(ref.committees(m, k)))
        ctx.count("transitions", len(want))
        return want, want


CHECK = A05()
