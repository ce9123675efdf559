import itertools
from fractions import Fraction

from mc import domain
from mc.base import Check
from mc.checks.d01 import ALGS

PROPS = dict(ALGS, pareto=("gurobi", "brute-force"), priceability=("gurobi",))
PROPS["stable-priceability"] = ("gurobi",)
QUOTA = ("jr", "ejr+", "pjr", "ejr", "fjr", "core")
FACTORS = ("1/3", "1000003", "1/1000003", "1000000000", "1/1000000000")
# Gurobi versions of the group-based checks get the quota times these factors, too
QUOTAS = ("1", "3/4", "3/2")


def profile_of(m, masks, ws, factor=1):
    from abcvoting.preferences import Profile, Voter

    p = Profile(m)
    for x, w in zip(masks, ws):
        w = Fraction(w) * factor
        p.add_voter(Voter(domain.bits(x), weight=int(w) if w.denominator == 1 else w))
    return p


class D09(Check):
    """The property checks see only relative weights, and weight w as w voters."""

    solver = True
    chunk = 2

    def units(self, tier):
        yield from domain.weighted(domain.orbits(2, 2), (1, 2, 3))
        yield from domain.weighted(domain.orbits(3, 2), (1, 2, 3))
        yield from domain.weighted(domain.orbits(3, 3, empty=False), (1, 2))
        yield from domain.orbits(3, 3)
        yield from domain.orbits(4, 2)
        # many copies: algorithms other than brute-force only
        yield from domain.weighted(domain.orbits(3, 2, empty=False), (7, 12))
        for ws in itertools.permutations((3, 7, 13)):
            for u in domain.orbits(3, 3, empty=False):
                yield (u[0], u[1], ws)
        if tier == "thorough":
            yield from domain.weighted(domain.orbits(4, 3, empty=False), (5, 11))
            yield from domain.weighted(domain.orbits(4, 2), (1, 3))
            yield from domain.orbits(4, 3)
            yield from domain.weighted(domain.orbits(3, 3), (1, 3))

    def bounds(self, tier):
        return (
            "up to renaming m<=3 n=2 weights {1,2,3}, m=3 n=3 weights {1,2}, m=4 n=2 unit weights, up to 24 copies"
            " (m=3 n=2 weights {7,12}, m=3 n=3 weights 3, 7 and 13; without brute-force)"
            + ("; m=4 n=3, m=4 n=2 weights {1,3}, m=3 n=3 weights {1,3}, m=4 n=3 weights {5,11}" if tier == "thorough" else "")
            + f"; all nonempty committees; every property check and algorithm; weights times {', '.join(FACTORS)}; quotas"
            f" n/k times {', '.join(QUOTAS)}"
        )

    def show(self, unit):
        return domain.describe(unit)

    def unit_size(self, unit):
        return domain.size_key(unit)

    def run(self, unit, ctx):
        from abcvoting import properties

        m, masks, ws = unit[:3]
        ws = ws or (1,) * len(masks)
        base = profile_of(m, masks, ws)
        crowd = sum(ws) > 12
        others = [] if crowd else [("weights times " + f, profile_of(m, masks, ws, Fraction(f)), Fraction(f)) for f in FACTORS]
        if any(w != 1 for w in ws):
            pairs = [(x, 1) for x, w in zip(masks, ws) for _ in range(w)]
            others.append(("copies of voters", profile_of(m, *zip(*pairs)), 1))
        for k in range(1, m + 1):
            for comm in itertools.combinations(range(m), k):
                for prop, algs in PROPS.items():
                    for q in QUOTAS if prop in QUOTA else (None,):
                        for alg in algs:
                            if crowd and alg == "brute-force":
                                continue
                            self.one(ctx, properties, base, others, comm, prop, alg, q, sum(ws))

    def one(self, ctx, properties, base, others, comm, prop, alg, q, total):
        def call(p, factor):
            kw = {} if alg is None else {"algorithm": alg}
            if q not in (None, "1"):
                kw["quota"] = Fraction(q) * total * factor / len(comm)
            ctx.count("evaluations")
            ctx.count("transitions")
            ctx.count("traces_validated_against_impl")
            return properties.check(prop, p, set(comm), **kw)

        want = call(base, 1)
        ctx.count("states")
        ctx.outcome(prop, q, comm, want)
        for label, p, factor in others:
            try:
                got = call(p, factor)
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            if got != want:
                ctx.fail(f"{prop}/{alg}", f"committee {comm}, quota {q} n/k: {label}: {got}, otherwise {want}")


CHECK = D09()
