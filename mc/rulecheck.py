"""Shared exploration of one or more voting rules against their reference models."""

import itertools

from mc import domain
from mc.base import Check


def fmt(comms):
    return "[" + ", ".join("{" + ",".join(map(str, sorted(c))) + "}" for c in sorted(comms, key=sorted)) + "]"


def usable(algorithm):
    return algorithm != "mip-gurobi"  # needs a Gurobi installation that python-mip can load


def units_cheap(tier):
    """Bounds for rules with combinatorial (non-solver) algorithms."""
    yield from domain.seq_m(3, 3 if tier == "quick" else 4)
    yield from domain.multisets(4, 2)
    yield from domain.with_relabelings(domain.orbits(4, 3))
    yield from domain.with_relabelings(domain.orbits(4, 4))
    yield from domain.with_relabelings(domain.orbits(5, 3))
    yield from domain.orbits(4, 5, empty=False)
    yield from domain.partylists(3, 3, 3, 7)
    yield from domain.multiplicities(4, (0b0011, 0b0110, 0b1100), (0, 1, 3, 5))
    yield from domain.multiplicities(4, (0b0001, 0b0111, 0b1010, 0b1000), (0, 1, 4))
    yield from domain.wide(2)
    yield from domain.ladders()
    yield from domain.crowds()
    yield from domain.staircase(8, 6, (1, 3))
    yield from domain.staircase(7, 8, (2, 4) if tier == "quick" else (1, 2, 4), step=3)
    if tier == "thorough":
        yield from domain.with_relabelings(domain.orbits(5, 4))
        yield from domain.with_relabelings(domain.orbits(4, 6, empty=False))
        yield from domain.multisets(4, 4)
        yield from domain.wide(3)
        yield from domain.orbits(6, 3, empty=False)


def weighted_cheap(tier):
    yield from domain.weighted(domain.seq_m(2, 2), (1, 2, 3, "1/2", "1/3"))
    yield from domain.weighted(domain.orbits(3, 2), (1, 2, 3, "1/2", "1/3", "5/2", 7))
    yield from domain.weighted(domain.orbits(3, 3), (1, 2, "1/3"))
    yield from domain.weighted(domain.orbits(4, 2), (1, 3, "2/3"))
    yield from domain.weighted(domain.with_relabelings(domain.orbits(4, 3), ("rev",)), (1, 3))
    yield from domain.staircase(7, 5, (1, 3), (1, 2, "1/3", 5, 1))
    for m, masks, _ in domain.ladders():
        yield (m, masks, tuple(range(2 * len(masks), len(masks), -1)))
    # large weights and weights that nearly tie
    yield from domain.weighted(domain.orbits(3, 2), (10**6, 10**6 + 1, 2 * 10**6))
    yield from domain.weighted(domain.orbits(3, 3), (10**5, 10**5 + 1))
    yield from domain.weighted(domain.orbits(4, 2), (10**6, 10**6 + 1))
    yield from domain.weighted(domain.orbits(3, 2), ("1/1000000", "1/1000001"))
    for m, masks, _ in domain.orbits(4, 4, empty=False):
        yield (m, masks, (1000003,) * len(masks))
    if tier == "thorough":
        yield from domain.weighted(domain.orbits(4, 3), (1, 2, 3, "1/2"))
        yield from domain.weighted(domain.orbits(3, 4), (1, 2, "1/3"))


BOUNDS_CHEAP = {
    "quick": "unit weights: every ordered profile with m<=3 candidates, n<=3 voters (empty approval"
    " sets included); every multiset m=4 n=2; every profile up to renaming m=4 n<=4, m=5 n=3, under"
    " 3 fixed relabelings; m=4 n=5 up to renaming; all party lists with <=3 parties of <=3"
    " candidates and <=3 voters; repeated-ballot families up to n=15 and (54 profiles) with 33 to 303 voters; m=12 two-digit family; 4 profiles with m=11 and k=4 to 11; cyclic intervals m=8 n=6 and m=7 n=8; all k",
    "thorough": "as quick plus ordered m<=3 n<=4, m=4 n=4 all multisets, m=4 n=6 and m=5 n=4 and m=6"
    " n=3 up to renaming, m=12 family n<=3; all k",
}
BOUNDS_WEIGHTED = (
    "; weights: all assignments from small alphabets of integers and fractions below and above 1"
    " (m<=2 n<=2 over {1,2,3,1/2,1/3}; m=3 n=2 over 7 weights; m=3 n=3 and m=4 n<=3), large weights"
    " and near ties (10^6 vs 10^6+1, 10^5 vs 10^5+1, 10^-6 vs 1/1000001: m=3 n<=3, m=4 n=2; 1000003: m=4 n=4), m=7 n=5 cyclic intervals, distinct weights m=11"
)


def units_ilp(tier):
    yield from domain.seq_m(2, 3)
    yield from domain.sequences(3, 2)
    yield from domain.with_relabelings(domain.orbits(3, 3))
    yield from domain.with_relabelings(domain.orbits(4, 2))
    yield from domain.with_relabelings(domain.orbits(4, 3), ("rot",))
    yield from domain.partylists(2, 2, 3, 4)
    yield from domain.multiplicities(4, (0b0011, 0b0110, 0b1100), (1, 3))
    yield from domain.wide(1)
    yield from domain.staircase(6, 5, (1, 3))
    if tier == "thorough":
        yield from domain.staircase(7, 6, (1, 3), step=2)
        yield from domain.sequences(3, 3)
        yield from domain.with_relabelings(domain.orbits(4, 3))
        yield from domain.with_relabelings(domain.orbits(4, 4))
        yield from domain.orbits(5, 3)
        yield from domain.wide(2)


BOUNDS_ILP = {
    "quick": "every ordered profile m<=2 n<=3 and m=3 n=2; every profile up to renaming m=3 n=3,"
    " m=4 n<=3 under fixed relabelings; party lists, repeated ballots, m=12 family n=1, cyclic intervals m=6 n=5; all k",
    "thorough": "as quick plus ordered m=3 n=3, m=4 n=4 and m=5 n=3 up to renaming, m=12 family n<=2",
}


def weighted_ilp(tier):
    yield from domain.weighted(domain.orbits(2, 2), (1, 2, 3, "1/2", "1/3"))
    yield from domain.weighted(domain.orbits(3, 2), (1, 3, "1/2"))
    yield from domain.weighted(domain.orbits(3, 3, empty=False), (1, 2))
    # large weights and weights that nearly tie
    yield from domain.weighted(domain.orbits(3, 2), (10**6, 10**6 + 1000, 2 * 10**6))
    yield from domain.weighted(domain.orbits(3, 2), (1000, 1001))
    # small weights
    yield from domain.weighted(domain.orbits(2, 2, empty=False), ("1/1000000", "9/10000000"))
    yield from domain.weighted(domain.orbits(3, 2, empty=False), ("1/1000000", "9/10000000"))
    yield from domain.weighted(domain.orbits(3, 3, empty=False), ("1/1000000000",))
    if tier == "thorough":
        yield from domain.weighted(domain.orbits(4, 3, empty=False), ("1/1000000000",))
        yield from domain.weighted(domain.orbits(3, 3), (1, 2, "1/3"))
        yield from domain.weighted(domain.orbits(4, 3, empty=False), (1, 3))


BOUNDS_WEIGHTED_ILP = (
    "; weights from small alphabets of integers and fractions (m<=3 n<=3), large and nearly equal weights"
    " (10^6 and 10^6+1000, 1000 and 1001: m=3 n=2), small weights (10^-6, 9*10^-7: m<=3 n=2; 10^-9: m=3 n=3)"
)


class RuleCheck(Check):
    """rules(unit, k) yields (rule_id, algorithms, all winning committees, resolute outcomes)."""

    wide_ks = (1, 2, 3)

    def ks(self, m):
        if m == 11:  # domain.ladders
            return range(4, m + 1)
        if m > 8:
            return self.wide_ks
        return range(1, m + 1)

    def explore(self, model):
        """All states of a sequential model; for the ladders (too many ties) only its resolute run."""
        if model.m == 11:
            return {model.leftmost()}, model.k, model.k
        return model.explore()

    def expected(self, rule_id, m, votes, k, ctx):
        """-> (set of winning committees, set of allowed resolute outcomes)"""
        raise NotImplementedError

    def rule_ids(self, unit):
        raise NotImplementedError

    def algorithms(self, rule, unit):
        return [a for a in rule.algorithms if usable(a)]

    def sizes(self, rule_id, k):
        return {k}

    def run(self, unit, ctx):
        from abcvoting import abcrules

        m, votes = domain.plain(unit)
        profile = domain.make_profile(unit)
        for rule_id in self.rule_ids(unit):
            rule = abcrules.Rule(rule_id)
            for k in self.ks(m):
                want, first = self.expected(rule_id, m, votes, k, ctx)
                ctx.count("model_outcomes")
                for alg in self.algorithms(rule, unit):
                    for resolute in rule.resolute_values:
                        if m == 11 and not resolute and k > 3:
                            continue  # ladders: only the resolute run was explored
                        self.compare(ctx, abcrules, rule_id, profile, k, alg, resolute, want, first)

    def compare(self, ctx, abcrules, rule_id, profile, k, alg, resolute, want, first):
        tag = f"{rule_id}/{alg}/{'resolute' if resolute else 'irresolute'}"
        try:
            got = abcrules.compute(rule_id, profile, k, algorithm=alg, resolute=resolute)
        except Exception as e:
            ctx.fail(tag, f"k={k}: {type(e).__name__}: {e}; expected {fmt(want)}")
            return
        ctx.count("evaluations")
        ctx.count("traces_validated_against_impl")
        sets = [frozenset(c) for c in got]
        if resolute:
            if len(sets) != 1 or sets[0] not in first:
                ctx.fail(tag, f"k={k}: returned {fmt(sets)}, allowed {fmt(first)}")
        else:
            if len(sets) != len(set(sets)) or set(sets) != want:
                ctx.fail(tag, f"k={k}: returned {fmt(sets)}, winning are {fmt(want)}")
        ctx.outcome(tag, k, sorted(map(sorted, sets)))
