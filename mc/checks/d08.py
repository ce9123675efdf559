from mc import allrules, domain
from mc.checks.c01 import cheap_units
from mc.base import Check
from mc.rulecheck import fmt

MONOTONE = (
    "av", "sav", "seqpav", "seqslav", "seqcc", "seqgeom2", "revseqpav", "revseqslav", "revseqcc",
    "revseqgeom2", "seqphragmen", "maximin-support",
)  # fmt: skip


class D08(Check):
    """Committee monotonicity of the sequential rules and of AV/SAV."""

    chunk = 20
    solver = True

    def units(self, tier):
        yield from domain.seq_m(3, 3)
        yield from domain.with_relabelings(domain.orbits(4, 3))
        yield from domain.orbits(4, 4)
        yield from domain.orbits(5, 3, empty=(tier == "thorough"))
        yield from domain.weighted(domain.orbits(3, 3), (1, 2, "1/2"))
        yield from domain.weighted(domain.orbits(4, 2), (1, 3, "1/3"))
        yield from domain.staircase(7, 6, (1, 3))
        yield from domain.staircase(8, 7, (2, 4), step=3)
        if tier == "thorough":
            yield from domain.with_relabelings(domain.orbits(4, 4))
            yield from domain.orbits(5, 4, empty=False)

    def bounds(self, tier):
        return (
            "ordered m<=3 n<=3; up to renaming m=4 n<=4, m=5 n=3" + ("; m=5 n=4" if tier == "thorough" else "")
            + "; cyclic intervals m=7 n=6, m=8 n=7; weights {1,2,3,1/2,1/3}; every k -> k+1"
        )

    def run(self, unit, ctx):
        from abcvoting import abcrules

        m = unit[0]
        profile = domain.make_profile(unit)
        for rid in MONOTONE:
            for r, alg, resolute in allrules.configs(rules=[rid]):
                if rid == "maximin-support" and (alg != "mip-cbc" or m > 3 or unit[2] is not None):
                    continue
                tag = f"{rid}/{alg}/{'resolute' if resolute else 'irresolute'}"
                prev = None
                for k in range(1, m + 1):
                    ctx.count("states")
                    cur = [
                        frozenset(c)
                        for c in abcrules.compute(rid, profile, k, algorithm=alg, resolute=resolute)
                    ]
                    ctx.count("evaluations")
                    ctx.count("transitions")
                    ctx.count("traces_validated_against_impl")
                    ctx.outcome(tag, k, len(cur))
                    if prev is not None:
                        lost = [p for p in prev if not any(p <= c for c in cur)]
                        new = [c for c in cur if not any(p <= c for p in prev)]
                        if lost or new:
                            ctx.fail(
                                tag,
                                f"k={k}: winning {fmt(cur)}, k={k - 1}: winning {fmt(prev)}",
                            )
                    prev = cur


CHECK = D08()
