from mc import allrules, axioms, domain
from mc.base import Check

# rule -> (axioms every winning committee satisfies, algorithm that enumerates all of them cheaply)
THEOREMS = {
    "av": ("pareto",),
    "pav": ("ejr+", "ejr", "pjr", "jr", "pareto"),
    "slav": ("pareto",),
    "geom2": ("pareto",),
    "cc": ("jr",),
    "lexcc": ("jr",),
    "seqcc": ("jr",),
    "monroe": ("jr",),
    "greedy-monroe": ("jr",),
    "equal-shares": ("ejr+", "ejr", "pjr", "jr", "priceability"),
    "equal-shares-with-av-completion": ("ejr+", "ejr", "pjr", "jr"),
    "seqphragmen": ("pjr", "jr", "priceability"),
    "leximaxphragmen": ("pjr", "jr"),
    "maximin-support": ("pjr", "jr"),
    "phragmen-enestroem": ("pjr", "jr"),
}
IF_DIVISIBLE = {"monroe": ("pjr",), "greedy-monroe": ("pjr",)}  # k divides the number of voters


class D05(Check):
    """The rules satisfy the axioms proved for them, in every winning committee."""

    solver = True
    chunk = 6

    def units(self, tier):
        for u in domain.orbits(3, 2):
            yield u + ("solver",)
        for u in domain.orbits(3, 3):
            yield u + ("solver",)
        for u in domain.orbits(4, 2):
            yield u + ("solver",)
        for n in (1, 2, 3, 4):
            for u in domain.orbits(3, n):
                yield u + ("cheap",)
            for u in domain.orbits(4, n):
                yield u + ("cheap",)
        for u in domain.orbits(5, 3):
            yield u + ("cheap",)
        for u in domain.orbits(4, 5, empty=False):
            yield u + ("cheap",)
        for u in domain.partylists(3, 3, 3, 6):
            yield u + ("cheap",)
        for u in domain.multiplicities(4, (0b0011, 0b0110, 0b1100, 0b1000), (0, 1, 2, 5)):
            yield u + ("cheap",)
        for u in domain.weighted(domain.orbits(3, 3), (1, 2, "1/2")):
            yield u + ("cheap",)
        for u in domain.weighted(domain.orbits(4, 2), (1, 3, "1/2")):
            yield u + ("cheap",)
        for u in domain.staircase(6, 6, (1, 3)):
            yield u + ("cheap",)
        for u in domain.staircase(6, 4, (2, 3), weights=(1, "5/2", 3, 2)):
            yield u + ("cheap",)
        for u in domain.staircase(5, 4, (1, 3)):
            yield u + ("solver",)
        if tier == "thorough":
            for u in domain.staircase(7, 7, (2, 3), step=2):
                yield u + ("cheap",)
            for u in domain.orbits(4, 3):
                yield u + ("solver",)
            for u in domain.orbits(5, 4):
                yield u + ("cheap",)
            for u in domain.orbits(4, 6, empty=False):
                yield u + ("cheap",)

    def bounds(self, tier):
        return (
            "solver-based algorithms: up to renaming m=3 n<=3, m=4 n=2" + ("; m=4 n=3" if tier == "thorough" else "")
            + "; others: m<=4 n<=5, m=5 n=3" + ("; m=5 n=4, m=4 n=6" if tier == "thorough" else "")
            + "; cyclic intervals m=6 n=6 (solver-based m=5 n=4), party lists, repeated ballots, weights over {1,2,3,1/2}; all k; every winning committee"
        )

    def run(self, unit, ctx):
        from abcvoting import abcrules

        m, votes = domain.plain(unit)
        profile = domain.make_profile(unit)
        unweighted = unit[2] is None
        n = len(votes)
        cache = {}
        for rid, alg, resolute in allrules.configs(unit[3] == "solver", THEOREMS):
            if resolute and False in abcrules.Rule(rid).resolute_values:
                continue
            if not allrules.weights_ok(rid, alg, unit):
                continue
            if not unweighted and rid == "leximaxphragmen":
                continue
            if unit[3] == "cheap" and alg == "brute-force" and (m > 4 or rid == "monroe" and n > 4):
                continue
            for k in range(1, m + 1):
                names = THEOREMS[rid]
                if rid in IF_DIVISIBLE and n % k == 0:
                    names = names + IF_DIVISIBLE[rid]
                for W in abcrules.compute(rid, profile, k, algorithm=alg, resolute=resolute):
                    W = frozenset(W)
                    for name in names:
                        if (name, W) not in cache:
                            cache[name, W] = axioms.holds(name, m, votes, W)
                            ctx.count("states")
                        ctx.count("evaluations")
                        ctx.count("transitions")
                        ctx.count("traces_validated_against_impl")
                        ctx.outcome(rid, alg, k, name, len(W & frozenset.union(*(a for a, _ in votes))))
                        if not cache[name, W]:
                            ctx.fail(f"{rid}/{alg}/{name}", f"k={k}: winning committee {sorted(W)} violates {name}")


CHECK = D05()
