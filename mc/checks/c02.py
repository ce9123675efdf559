from mc import domain
from mc.checks.c01 import AllRules, cheap_units
from mc.rulecheck import fmt


class C02(AllRules):
    """max_num_of_committees: every cap is respected and never loses available winners."""

    def units(self, tier):
        sol = [u + ("solver",) for u in domain.orbits(2, 2)]
        sol += [u + ("solver",) for u in domain.orbits(3, 2)]
        sol += [u + ("solver",) for u in domain.orbits(3, 3, empty=False)]
        sol += [u + ("solver",) for u in domain.orbits(4, 2)]
        sol += [u + ("solver",) for u in domain.weighted(domain.orbits(2, 2, empty=False), (2, "1/2"))]
        if tier == "thorough":
            sol += [u + ("solver",) for u in domain.with_relabelings(domain.orbits(4, 3), ("rot",))]
        yield from sol
        for u in cheap_units(tier):
            yield u + ("cheap",)

    def bounds(self, tier):
        return (
            "solver-based algorithms: up to renaming m=2 n=2, m=3 n<=3, m=4 n=2, weights {2,1/2}"
            + ("; m=4 n=3" if tier == "thorough" else "")
            + "; other algorithms: as in C01; all k; every cap from 1 to one more than the number of"
            " winning committees (solver-based: 1, 2, all-1, all, all+1)"
        )

    def run(self, unit, ctx):
        from abcvoting import abcrules

        profile = domain.make_profile(unit)
        for k in self.ks(unit[0]):
            for rid, alg, resolute in self.configs(unit):
                if resolute or rid == "rsd":
                    continue
                tag = f"{rid}/{alg}"
                call = lambda cap: [
                    frozenset(c)
                    for c in abcrules.compute(
                        rid, profile, k, algorithm=alg, resolute=False, max_num_of_committees=cap
                    )
                ]
                ctx.count("states")
                every = call(None)
                caps = range(1, len(every) + 2)
                if unit[3] == "solver":
                    caps = sorted({1, 2, len(every) - 1, len(every), len(every) + 1} - {0})
                for cap in caps:
                    got = call(cap)
                    ctx.count("evaluations")
                    ctx.count("transitions")
                    ctx.count("traces_validated_against_impl")
                    n = len(got)
                    if n > cap or len(set(got)) < n or not set(got) <= set(every):
                        ctx.fail(tag, f"k={k} cap={cap}: returned {fmt(got)}, winning are {fmt(every)}")
                    elif n < min(cap, len(every)):
                        ctx.fail(tag, f"k={k} cap={cap}: only {fmt(got)} of {fmt(every)}")
                    ctx.outcome(tag, k, cap, len(every))


CHECK = C02()
