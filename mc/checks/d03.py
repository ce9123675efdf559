import itertools

from mc import axioms, domain, ref
from mc.base import Check


class D03(Check):
    """Pareto optimality and dominance verdicts equal the definitions."""

    solver = True
    chunk = 8

    def units(self, tier):
        for u in domain.orbits(3, 2):
            yield u + ("all",)
        for u in domain.orbits(3, 3):
            yield u + ("all",)
        for u in domain.orbits(4, 2):
            yield u + ("all",)
        for u in domain.orbits(4, 3):
            yield u + ("all",)
        for u in domain.seq_m(3, 3):
            yield u + ("cheap",)
        for u in domain.with_relabelings(domain.orbits(4, 4)):
            yield u + ("cheap",)
        for u in domain.orbits(5, 3):
            yield u + ("cheap",)
        for u in domain.weighted(domain.orbits(3, 2), (1, 3, "1/2")):
            yield u + ("all",)
        for u in domain.staircase(5, 4, (1, 3)):
            yield u + ("all",)
        for u in domain.staircase(6, 6, (1, 3)):
            yield u + ("cheap",)
        if tier == "thorough":
            for u in domain.staircase(7, 7, (2, 3), step=2):
                yield u + ("cheap",)
            for u in domain.orbits(4, 4):
                yield u + ("all",)
            for u in domain.orbits(5, 4):
                yield u + ("cheap",)

    def bounds(self, tier):
        return (
            "both algorithms: up to renaming m=3 n<=3, m=4 n<=3, weighted m=3 n=2; brute force and"
            " dominate(): ordered m<=3 n<=3, up to renaming m=4 n<=4, m=5 n=3, cyclic intervals m=6 n=6"
            + ("; m=4 n=4 with Gurobi, m=5 n=4" if tier == "thorough" else "")
            + "; every committee; dominate() on every ordered pair of committees of equal size and on"
            " every pair of different sizes for m<=3"
        )

    def run(self, unit, ctx):
        from abcvoting import misc, properties

        m, votes = domain.plain(unit)
        profile = domain.make_profile(unit)
        algs = ("gurobi", "brute-force") if unit[3] == "all" else ("brute-force",)
        for k in range(1, m + 1):
            comms = [frozenset(c) for c in ref.committees(m, k)]
            for W in comms:
                want = axioms.pareto(m, votes, W)
                ctx.count("states")
                for alg in algs:
                    got = properties.check("pareto", profile, set(W), algorithm=alg)
                    self.tick(ctx, "pareto", k, want)
                    if bool(got) != want:
                        ctx.fail(f"pareto/{alg}", f"committee {sorted(W)}: verdict {got}, by definition {want}")
        if unit[3] == "cheap":
            sets = [frozenset(c) for k in range(0 if m <= 3 else 1, m + 1) for c in ref.committees(m, k)]
            for X, Y in itertools.product(sets, repeat=2):
                if m > 3 and len(X) != len(Y):
                    continue
                want = axioms.dominates(votes, X, Y)
                got = misc.dominate(profile, sorted(X), set(Y))
                self.tick(ctx, "dominate", len(X), len(Y), want)
                if bool(got) != want:
                    ctx.fail("dominate", f"{sorted(X)} over {sorted(Y)}: {got}, by definition {want}")

    def tick(self, ctx, *key):
        ctx.count("evaluations")
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        ctx.outcome(*key)


CHECK = D03()
